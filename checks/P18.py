import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import re
import shutil
import bz, e2e, gen, logic, rich
import P16, P17
from hypothesis import strategies as st

PASSES = ["to_nnf", "to_bnf", "optimize_rewrites", "optimize_cse", "remove_extended_operators", "flatten_multi_operators", "multi_operators_to_binary", "sort_operands_by_pd", "remove_release_operators",
          "resolve_contracts", "resolve_bool_equalities", "expand_definitions", "compute_atomics", "compute_scq_sizes", "type_check", "desugar"]
LOOK = ["print_c2po", "print_prefix", "print_mltl", "write_c2po o{k}.c2po", "write_prefix o{k}.prefix", "write_mltl o{k}.mltl", "generate_map --output o{k}.map", "print_stats %S"]
ELSE = ["parse_c2po b.c2po", "parse_c2po a.c2po", "parse_c2po bad.c2po", "parse_mltl b.mltl", "enable_booleanizer", "disable_booleanizer", "set_mission_time 3", "parse_map m.map", "parse_map b.map", "parse_trace trace.csv", "parse_trace nosuch.csv", "nosuch", "compile o{k}.bin",
        "set_r2u2_bin_path /nosuch", "write_bounds_c o{k}.h"]
PIPE = ["type_check", "desugar", "compute_atomics", "compile o{k}.bin"]


@st.composite
def history(draw, depth, foreign):
    """Items: a command line, ["block", items] (push, items, pop) or ["push"]"""
    out = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 9))
        if k < 2 and depth > 0:
            out.append(["block", draw(history(depth - 1, True))])
        elif k == 2:
            out.append(["push"])
        elif k < 5 and foreign:
            out.append(draw(st.sampled_from(ELSE)))
            if out[-1].startswith("parse_c2po") and draw(st.booleans()):
                out += PIPE[:draw(st.integers(1, 4))]
        elif k < 7:
            out.append(draw(st.sampled_from(LOOK)))
        elif foreign:
            out.append(draw(st.sampled_from(PASSES)))
        else:
            out.append(draw(st.sampled_from(PASSES[:9])))
    return out


@st.composite
def push_cases(draw):
    a = draw(rich.cases(depth=draw(st.integers(1, 2)), more=True))
    b = draw(rich.cases(depth=1, more=True))
    skel = [["enable_booleanizer"] if a["bz"] else [], ["parse_c2po a.c2po"], ["parse_trace trace.csv"]]
    if draw(st.booleans()):
        skel += [["compile spec.bin"], []]
    else:
        skel += [["type_check"], ["desugar"], draw(st.lists(st.sampled_from(PASSES[:9]), max_size=3)), ["multi_operators_to_binary"], ["remove_extended_operators"], ["assemble spec.bin"], []]
    hist = []
    for i, s in enumerate(skel):
        hist += s
        if draw(st.integers(0, 2)) == 0:
            hist += draw(history(2, False)) if len(skel) > 5 and i == 4 else [["block", draw(history(1, True))]]
    return {"a": a, "b": b, "hist": hist}


def number(hist, counter):
    out = []
    for x in hist:
        if isinstance(x, list):
            out.append([x[0]] + ([number(x[1], counter)] if len(x) > 1 else []))
        else:
            counter[0] += 1
            out.append(x.replace("{k}", str(counter[0])))
    return out


def lines(hist, kept):
    out = []
    for x in hist:
        if x == ["push"]:
            out += [] if kept else ["push"]
        elif isinstance(x, list):
            out += [] if kept else ["push"] + lines(x[1], False) + ["pop"] + ["pop"] * pending(x[1])
        else:
            out += ["echo @@" + re.sub(r"\W", "_", x), x]
    return out


def pending(hist):
    """pushes of this level that its own pop leaves behind: popping goes back to the innermost one"""
    return sum(1 for x in hist if x == ["push"])


def flat(hist):
    """the commands outside all blocks"""
    return [x for x in hist if not isinstance(x, list)]


def run_script(env, hist, kept):
    for f in os.listdir(env.dir):
        if re.match(r"o\d+\.|spec\.bin", f):
            os.unlink(env.path(f))
    ls = lines(hist, kept)
    env.write("run.cmd", "".join(l + "\n" for l in ls))
    r = env.c2po(["--script", "run.cmd"])
    files = {f: env.read(f, binary=True) for f in sorted(os.listdir(env.dir)) if re.match(r"o\d+\.|spec\.bin", f)}
    return r, ls, files


def run_push(env, case):
    a, b = case["a"], case["b"]
    el = rich.Elab(a)
    fs = [f for _, f in el.formulas()[0]]
    if max(logic.size(f) for f in fs) > 120:
        raise Rejected()
    types = rich.sig_types(a)
    n, cols, order = a["trace"]["n"], a["trace"]["cols"], a["trace"]["order"]
    acols = {k: bz.column(x, cols, n, types) for k, x in el.atoms.items()}
    env.write("a.c2po", rich.program(a))
    env.write("b.c2po", rich.program(b))
    env.write("bad.c2po", "INPUT p: bool; FTSPEC p &&;")
    env.write("b.mltl", "G[0,2] (a0 -> F[1,3] a1)\n")
    env.write("trace.csv", bz.csv(cols, order, types, n, style=a["trace"].get("style", 0)))
    env.write("m.map", "".join("%s:%d\n" % (s, i + 3) for i, s in enumerate(order)))
    env.write("b.map", "p:1\nq:0\n")
    hist = number(case["hist"], [0])
    r1, l1, f1 = run_script(env, hist, True)
    r2, l2, f2 = run_script(env, hist, False)
    what = "\n--- a.c2po\n%s\n--- b.c2po\n%s\n--- script\n%s\n" % (env.read("a.c2po"), env.read("b.c2po"), "\n".join(l for l in l2 if not l.startswith("echo @@")))
    if r1.crashed or r1.timeout or r2.crashed or r2.timeout:
        raise Violation("a command failed internally%s%s" % (what, e2e.text_tail(r2.text if r2.crashed or r2.timeout else r1.text, 1500)))
    keep = {x.split()[-1] for x in flat(hist) if x.split()[-1] in f1 or x.split()[-1] in f2}
    if "spec.bin" not in f1:
        raise Rejected()  # the script does not assemble, whatever is pushed
    if "to_nnf" in flat(hist) and re.search(r"xor|==|!=", env.read("a.c2po")):
        raise Rejected()  # finding of P04
    for f in sorted(keep - {"spec.bin"}):
        if f1.get(f) != f2.get(f):
            raise Violation("%s differs from what the commands outside push..pop write%s--- without push..pop\n%s\n--- with\n%s\n%s" % (
                f, what, show(f1.get(f)), show(f2.get(f)), e2e.text_tail(r2.text, 600)))
    s1, s2 = chunks(r1.out), chunks(r2.out)
    for (m, c) in s1:
        if (m, c) not in s2:
            other = [y for x, y in s2 if x == m]
            raise Violation("output of '%s' differs from that of the commands outside push..pop%s--- without push..pop\n%s\n--- with\n%s" % (m, what, c, "\n...\n".join(other)))
    if "spec.bin" in f2:
        m = e2e.run_monitor(env)
        v = e2e.verdicts(m)
        try:
            e2e.check_formulas(fs, acols, n, v)
        except Violation as ex:
            raise Violation("%s%s" % (ex, what))
    else:
        raise Violation("no binary (exit %d)%s%s" % (r2.rc, what, e2e.text_tail(r2.text)))
    blocks = sum(1 for x in hist if isinstance(x, list) and len(x) > 1 and flat(x[1]))
    return {"nontrivial": blocks > 0 and e2e.both_values(v), "labels": ["blocks:%d" % blocks, "bz:%s" % a["bz"]]}


# sessions about satisfiability and equivalence
MORE = ["parse_equiv b.equiv", "parse_equiv a.equiv", "parse_equiv bad.equiv", "check_equiv uflia --smt-max-time 3", "check_sat uflia --smt-max-time 3", "write_equiv_smt_encoding o{k}.smt2 uflia",
        "write_smt_encoding o{k}.smt2 uflia", "set_mission_time 5", "type_check", "desugar"]


@st.composite
def equiv_block(draw, depth):
    out = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 9))
        if k < 2 and depth > 0:
            out.append(["block", draw(equiv_block(depth - 1))])
        elif k == 2:
            out.append(["push"])
        elif k < 8:
            out.append(draw(st.sampled_from(MORE)))
        else:
            out.append(draw(st.sampled_from(ELSE + PASSES + LOOK)))
    return out


@st.composite
def equiv_cases(draw):
    c = {"a": draw(P17.symbolic()), "b": draw(P17.symbolic()), "plain": None}
    if draw(st.integers(0, 2)) == 0:
        c["plain"] = draw(P17.concrete())
        skel = ["parse_c2po a.c2po", "type_check", "desugar"]
        t, s = c["plain"]["runs"][0]
        theory = t + (" --strict" if s else "")
    else:
        skel = ["parse_equiv a.equiv", "type_check"] + ["desugar"] * draw(st.integers(0, 1))
        theory = "uflia" + (" --strict" if c["a"]["strict"] else "")
    if draw(st.integers(0, 4)) == 0:
        skel.append("set_mission_time %d" % draw(st.integers(0, 6)))
    ends = ["check_equiv %s --smt-max-time 3" % theory, "write_equiv_smt_encoding o{k}.smt2 %s" % theory, "print_c2po"]
    if c["plain"]:
        ends += ["check_sat %s --smt-max-time 3" % theory, "write_smt_encoding o{k}.smt2 %s" % theory]
    skel += draw(st.lists(st.sampled_from(ends), min_size=1, max_size=2, unique=True))
    hist = []
    for x in skel:
        hist.append(x)
        if draw(st.integers(0, 2)) == 0:
            hist.append(["block", draw(equiv_block(1))])
    c["hist"] = hist
    return c


def equiv_text(c):
    low = 0 if c.get("bare") else None
    return "".join("c: %s %s %s\n" % (P17.btext(p, low), r, P17.btext(q, low)) for r, p, q in c["cs"]) + "".join(P17.etext(f, True, low) + "\n" for f in c["fs"])


def run_equiv(env, case):
    env.write("a.equiv", equiv_text(case["a"]))
    env.write("b.equiv", equiv_text(case["b"]))
    env.write("bad.equiv", "c: b0 <\np0\n")
    env.write("b.c2po", "INPUT p, q: bool; FTSPEC G[0,3] p; x: p U[1,2] q;")
    env.write("bad.c2po", "INPUT p: bool; FTSPEC p &&;")
    env.write("b.mltl", "G[0,2] (a0 -> F[1,3] a1)\n")
    env.write("trace.csv", "#p,q\n1,0\n")
    env.write("m.map", "p:3\nq:4\n")
    env.write("b.map", "p:1\nq:0\n")
    if case["plain"]:
        c = case["plain"]
        env.write("a.c2po", "INPUT\n" + "".join("  %s: bool;\n" % n for n in c["names"]) + "FTSPEC\n" + "".join("  s%d: %s;\n" % (n, logic.c2po(f)) for n, f in enumerate(c["fs"])))
    else:
        env.write("a.c2po", "INPUT p, q: bool; FTSPEC G[0,3] p; x: p U[1,2] q;")
    hist = number(case["hist"], [0])
    out = []
    for kept in (True, False):
        for f in os.listdir(env.dir):
            if re.match(r"o\d+\.|spec\.bin", f):
                shutil.rmtree(env.path(f)) if os.path.isdir(env.path(f)) else os.unlink(env.path(f))
        ls = lines(hist, kept)
        env.write("run.cmd", "".join(l + "\n" for l in ls))
        r = env.c2po(["--script", "run.cmd"], timeout=120)
        files = {}
        for f in sorted(os.listdir(env.dir)):
            if re.match(r"o\d+\.|spec\.bin", f):
                for g in (sorted(os.listdir(env.path(f))) if os.path.isdir(env.path(f)) else [""]):
                    files[f + "/" + g] = env.read(os.path.join(f, g) if g else f, binary=True)
        out.append((r, ls, files))
    (r1, l1, f1), (r2, l2, f2) = out
    what = "\n--- a.equiv\n%s\n--- b.equiv\n%s\n--- a.c2po\n%s\n--- script\n%s\n" % (env.read("a.equiv"), env.read("b.equiv"), env.read("a.c2po"), "\n".join(l for l in l2 if not l.startswith("echo @@")))
    # a transformation within a block may fail on symbolic bounds; a failing command changes nothing either
    if r1.crashed or r1.timeout or r2.timeout or "check_equiv" in bad(r2) or "check_sat" in bad(r2) or "write_" in bad(r2) or (r2.crashed and not bad(r2)):
        raise Violation("a command failed internally%s%s" % (what, e2e.text_tail(r2.text if r2.crashed or r2.timeout else r1.text, 1500)))
    for x in flat(hist):
        m = re.search(r"o\d+\.\w+", x)
        if m:
            a, b = ({k: v for k, v in fs.items() if k.startswith(m.group(0) + "/")} for fs in (f1, f2))
            if a != b:
                raise Violation("what '%s' writes differs from what the commands outside push..pop write%s--- without push..pop\n%s\n--- with\n%s\n%s" % (x, what, both(a), both(b), e2e.text_tail(r2.text, 600)))
    s1, s2 = chunks(r1.out), chunks(r2.out)
    loose = "timed out" in r1.text + r2.text or "unknown" in r1.text + r2.text
    for m, c in s1:
        if (m, c) not in s2 and not (loose and m.startswith("check_")):
            raise Violation("output of '%s' differs from that of the commands outside push..pop%s--- without push..pop\n%s\n--- with\n%s" % (m, what, c, "\n...\n".join(y for x, y in s2 if x == m)))
    blocks = sum(1 for x in hist if isinstance(x, list) and len(x) > 1 and flat(x[1]))
    return {"nontrivial": blocks > 0 and bool(re.search(r"equiv|sat|smt", " ".join(flat(hist)[2:]))), "labels": ["equiv blocks:%d" % blocks] + ["equiv:" + x.split()[0] for x in flat(hist)]}


def bad(r):
    return " ".join(re.findall(r"unexpected error executing (\w+)", r.text))


def both(fs):
    return "\n".join("%s:\n%s" % (k, v.decode("latin-1")) for k, v in fs.items()) or "(no file)"


def show(b):
    return "(no file)" if b is None else b.decode("latin-1")


def chunks(text):
    out = []
    for c in text.split("@@")[1:]:
        head, _, body = c.partition("\n")
        out.append((head, body))
    return out


CHECK = Check("P18", [
    Part("push", push_cases, run_push, 2000, 20000, "REPL scripts with nested push/pop around arbitrary commands against the script without them"),
    Part("equiv", equiv_cases, run_equiv, 700, 9000, "the same for scripts that check or encode satisfiability and equivalence, with constraints, symbolic bounds and mission times"),
], rule="non-trivial: something ran between a push and its pop, and both verdicts are reported (push) or a later command answers or writes an encoding (equiv); distinct by the whole case",
    assumptions=[])

if __name__ == "__main__":
    main(CHECK)
