import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import bz, e2e, gen, logic, rich
from hypothesis import strategies as st

FULL = ["type_check", "desugar", "optimize_rewrites", "remove_extended_operators", "optimize_cse", "multi_operators_to_binary", "remove_extended_operators"]
OTHER = ["to_nnf", "to_bnf", "optimize_rewrites", "optimize_cse", "remove_extended_operators", "flatten_multi_operators", "multi_operators_to_binary", "sort_operands_by_pd", "remove_release_operators"]


def pipelines():
    @st.composite
    def pipe(draw):
        if draw(st.booleans()):
            return FULL[:draw(st.integers(0, len(FULL)))]
        return FULL[:2] + draw(st.lists(st.sampled_from(OTHER), max_size=4))
    return pipe()


@st.composite
def rich_cases(draw):
    c = draw(rich.cases(depth=draw(st.integers(1, 3)), more=True))
    c["pipe"] = draw(pipelines())
    c["again"] = draw(st.booleans())
    return c


def script(env, lines, name="run.cmd"):
    env.write(name, "".join(l + "\n" for l in lines))
    return env.c2po(["--script", name])


def run_c2po(env, case):
    el = rich.Elab(case)
    fs = [f for _, f in el.formulas()[0]]
    if max(logic.size(f) for f in fs) > 120:
        raise Rejected()
    if {"to_nnf"} & set(case["pipe"]) and any(p[0] == "xor" for f in fs for p in logic.walk(f)):
        raise Rejected()  # known finding P04
    if "desugar" in case["pipe"] and any(k in json.dumps(case) for k in list(rich.CNT) + ['"ek"']):
        raise Rejected()  # an expanded count has no text in the language, and enumerators have become plain numbers
    types = rich.sig_types(case)
    n, cols, order = case["trace"]["n"], case["trace"]["cols"], case["trace"]["order"]
    acols = {k: bz.column(a, cols, n, types) for k, a in el.atoms.items()}
    text = rich.program(case)
    env.write("s.c2po", text)
    env.write("trace.csv", bz.csv(cols, order, types, n, style=case["trace"].get("style", 0)))
    pre = ["enable_booleanizer"] if case["bz"] else []
    r = script(env, pre + ["parse_c2po s.c2po"] + case["pipe"] + ["write_c2po w.c2po"])
    if r.rc != 0 or r.crashed or not env.exists("w.c2po"):
        raise Violation("write_c2po failed (exit %d) after %s\n%s\n%s" % (r.rc, case["pipe"], text, e2e.text_tail(r.text)))
    written = env.read("w.c2po")
    last = "w.c2po"
    if case["again"]:
        r = script(env, pre + ["parse_c2po w.c2po", "write_c2po w2.c2po"])
        if r.rc != 0 or r.crashed or not env.exists("w2.c2po"):
            raise Violation("a written file cannot be read and written again (exit %d)\n%s\n--- written after %s\n%s\n%s" % (r.rc, text, case["pipe"], written, e2e.text_tail(r.text)))
        last = "w2.c2po"
    r = env.c2po(["--spec", last, "--trace", "trace.csv", "-o", "spec.bin"] + (["-bz"] if case["bz"] else []))
    if r.rc == 11 and "constant formula" in r.text and any(len({x for x in logic.truth(f, acols, n) if x is not None}) < 2 for f in fs):
        raise Rejected()
    what = "\n%s\n--- written after %s\n%s\n" % (text, case["pipe"], env.read(last))
    if r.rc != 0 or r.crashed or r.timeout:
        raise Violation("C2PO does not accept what it wrote (exit %d)%s%s" % (r.rc, what, e2e.text_tail(r.text)))
    v = e2e.verdicts(e2e.run_monitor(env))
    try:
        e2e.check_formulas(fs, acols, n, v)
    except Violation as ex:
        raise Violation("%s%s" % (ex, what))
    return {"nontrivial": e2e.both_values(v), "labels": ["steps:%d" % len(case["pipe"]), "bz:%s" % case["bz"]]}


SIGS = e2e.SIGS
UNPICKLE = "import sys, pickle; sys.path.insert(0, sys.argv[1]); import c2po.main; sys.stdout.write(str(pickle.load(open('w.pickle', 'rb'))))"


@st.composite
def chain(draw, ops):
    """One or two operators nested in any way: what counts is how the text groups them."""
    ops = draw(st.lists(st.sampled_from(ops), min_size=1, max_size=2, unique=True))

    def go(n):
        if n == 1:
            return ["a", draw(st.sampled_from(SIGS))]
        op = draw(st.sampled_from(ops))
        if op == "!":
            return [op, go(n - 1)]
        k = draw(st.integers(1, n - 1))
        iv = list(draw(gen.intervals(2))) if op in logic.BIN_T else []
        return [op] + iv + [go(k), go(n - k)]
    return go(draw(st.integers(3, 5)))


@st.composite
def plain_cases(draw):
    kind = draw(st.sampled_from(["FT", "PT"]))
    fs = draw(gen.formulas(SIGS, gen.FT_OPS if kind == "FT" else gen.PT_OPS, max_formulas=4, max_depth=4, max_ub=5))
    if draw(st.integers(0, 2)) == 0:
        fs.append(draw(chain(gen.BOOL_OPS + [["U", "R"], ["S", "T"]][kind == "PT"])))
    order = list(draw(st.permutations(SIGS)))
    return {"kind": kind, "fs": fs, "pipe": draw(pipelines()), "trace": draw(gen.bool_trace(SIGS, 1, 20)), "order": order,
            "labels": [draw(st.sampled_from([None, "lab%d" % i])) for i in range(len(fs))], "decl": list(draw(st.permutations(SIGS))),
            "map": draw(st.booleans()), "pickle": draw(st.integers(0, 5)) == 5}


def same_prefix(env, name, how, fs, cols, what):
    px = prefix_lines(env.read(name))
    if len(px) != len(fs):
        raise Violation("%s: %d formulas instead of %d%s%s" % (how, len(px), len(fs), what, env.read(name)))
    for i, (f, g) in enumerate(zip(fs, px)):
        for tr in [cols] + logic.extensions({s: [] for s in SIGS}, 0, 16, range(3)):
            m = min(len(c) for c in tr.values())
            L = m + max(logic.wpd(f), logic.wpd(g))
            a, b = logic.evaluate(f, tr, m, L), logic.evaluate(g, tr, m, L)
            for t in range(m):
                if a[t] is not None and b[t] is not None and a[t] != b[t]:
                    raise Violation("%s: formula %d differs at time %d%s%s" % (how, i, t, what, env.read(name)))


def run_mltl(env, case):
    kind, fs, n, cols = case["kind"], case["fs"], case["trace"]["n"], case["trace"]["cols"]
    pipe = case["pipe"] if case["pipe"] else ["type_check"]
    if "to_nnf" in pipe and any(p[0] == "xor" for f in fs for p in logic.walk(f)):
        raise Rejected()  # known finding P04
    if any(p[0] == "xor" for f in fs for p in logic.walk(f)) and not set(pipe) & {"to_bnf", "remove_extended_operators"}:
        pipe = pipe + (["desugar"] if pipe == ["type_check"] else []) + ["remove_extended_operators"]  # MLTL-STD has no xor
    env.write("s.c2po", logic.spec_text(fs, case["decl"], kind, case["labels"]))
    env.write("trace.csv", logic.csv_bool(cols, case["order"], n))
    env.write("m.map", "".join("%s:%d\n" % (s, i) for i, s in enumerate(case["order"])))
    r = script(env, ["parse_c2po s.c2po", "parse_map m.map" if case["map"] else "parse_trace trace.csv"] + pipe
               + ([] if "desugar" in pipe else ["desugar"]) + ["compute_atomics", "write_mltl w.mltl", "write_prefix w.prefix", "write_pickle w.pickle", "write_c2po w.c2po",
               "parse_c2po w.c2po", "type_check", "write_prefix w2.prefix"])
    text = logic.spec_text(fs, case["decl"], kind, case["labels"])
    if r.rc != 0 or r.crashed or not env.exists("w.mltl"):
        raise Violation("writing failed (exit %d) after %s\n%s\n%s" % (r.rc, pipe, text, e2e.text_tail(r.text)))
    what = "\n%s\n--- written after %s, columns %s\n" % (text, pipe, case["order"])
    # prefix
    for name, how in (("w.prefix", "write_prefix"), ("w2.prefix", "write_c2po, read back")):
        same_prefix(env, name, how, fs, cols, what if how == "write_prefix" else what + env.read("w.c2po"))
    # pickle
    if case["pickle"]:
        p = env.run([VENV_PY, "-c", UNPICKLE, os.path.join(REPO, "compiler")])
        if p.rc != 0 or p.out != env.read("w.c2po"):
            raise Violation("the pickled program is not the program (exit %d)%s--- write_c2po\n%s\n--- unpickled\n%s" % (p.rc, what, env.read("w.c2po"), e2e.text_tail(p.text)))
    # MLTL-STD: position k of the input vector is column k of the trace
    r = env.c2po(["--spec", "w.mltl", "-o", "spec.bin"])
    if r.rc == 11 and "constant formula" in r.text and any(e2e.is_constant(f, SIGS) for f in fs):
        raise Rejected()
    if r.rc != 0 or r.crashed or r.timeout:
        raise Violation("C2PO does not accept the MLTL-STD file it wrote (exit %d)%s%s\n%s" % (r.rc, what, env.read("w.mltl"), e2e.text_tail(r.text)))
    v = e2e.verdicts(e2e.run_monitor(env))
    try:
        e2e.check_formulas(fs, cols, n, v)
    except Violation as ex:
        raise Violation("%s%s%s" % (ex, what, env.read("w.mltl")))
    return {"nontrivial": e2e.both_values(v), "labels": ["steps:%d" % len(pipe), "map:%s" % case["map"], "kind:" + kind]}


def prefix_lines(text):
    import re
    out = []
    for l in text.split("\n"):
        l = l.strip()
        m = re.match(r"(?:\w+\s*:)?\s*([(\w].*)$", l)
        if not l or l in ("INPUT", "FTSPEC", "PTSPEC", "DEFINE") or l.endswith(";") or not m:
            continue
        out.append(logic.parse_prefix(m.group(1)))
    return out


CHECK = Check("P10", [
    Part("c2po", rich_cases, run_c2po, 1600, 20000, "full-language programs written with write_c2po after a random prefix of the pipeline or a random sequence of transformations, read back and compiled"),
    Part("other", plain_cases, run_mltl, 1000, 14000, "formulas over boolean inputs written as MLTL-STD, prefix text and pickle after random transformations"),
], rule="non-trivial: both verdicts are reported by the monitor of the written file; distinct by the whole case",
    assumptions=["reference elaboration and semantics (lib/rich.py, lib/bz.py, lib/logic.py) of the program before it was written"])

if __name__ == "__main__":
    main(CHECK)
