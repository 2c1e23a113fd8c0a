import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import itertools, re
import bz, e2e, gen, logic, tt
from hypothesis import strategies as st

# operators an encoding must not refuse
SUPPORTED = {
    "uflia": {"!", "&", "|", "->", "<->", "G", "F", "U", "R"},
    "qf_uflia": {"!", "&", "|", "->", "<->", "G", "F", "U"},
    "qf_bv": {"!", "&", "|", "<->", "G", "F", "U"},
}
PASSES = ["optimize_rewrites", "optimize_cse", "multi_operators_to_binary", "to_bnf", "to_nnf", "flatten_multi_operators", "sort_operands_by_pd", "compute_scq_sizes"]
STRICT_PASSES = ["optimize_cse", "multi_operators_to_binary", "flatten_multi_operators", "sort_operands_by_pd", "compute_scq_sizes"]
NAMES = ["p", "q", "r", "e0", "e1", "k", "len", "i", "f_e0", "e2_0"]
OPS = ["!", "&", "|", "->", "<->"] + ["G", "F", "U", "R"] * 2
T_UN, T_BI = ["G", "F"], ["U", "R"]


@st.composite
def tight(draw, names, ops, ub):
    """Formulas that are about as often unsatisfiable as not."""
    tun = [o for o in T_UN if o in ops]
    tbi = [o for o in T_BI if o in ops]
    iv = gen.intervals(ub)
    at = lambda: draw(st.sampled_from([["a", n] for n in names] + [["!", ["a", n]] for n in names]))

    def unit(sub=at):
        op = draw(st.sampled_from(tun + tun + tbi))
        lb, ub = draw(iv)
        return [op, lb, ub, sub()] if op in tun else [op, lb, ub, sub(), sub()]
    k = draw(st.integers(0, 6))
    if k <= 1:  # a few constraints on few atoms
        return ["&"] + [draw(st.sampled_from([at, unit, unit, unit]))() for _ in range(draw(st.integers(2, 5)))]
    if k == 2:
        return ["&"] + [unit(lambda: draw(st.sampled_from([at, unit]))()) for _ in range(draw(st.integers(2, 3)))]
    x = draw(st.sampled_from([unit, lambda: unit(unit), lambda: [draw(st.sampled_from(["&", "|"])), unit(), at()]]))()
    y = draw(weaker(x, tun, tbi, at, iv))
    if k <= 4:
        return ["&", x, ["!", y]] if draw(st.booleans()) else ["&", ["!", y], x]
    if k == 5:
        return ["!", [draw(st.sampled_from([o for o in ("->", "<->") if o in ops] or ["|"])), x, y]]
    return unit(lambda: ["&", x, ["!", y]])


@st.composite
def weaker(draw, x, tun, tbi, at, iv):
    """Something that x implies, often; now and then not."""
    def go(x):
        op = x[0]
        if op not in ("G", "F", "U", "R") or draw(st.integers(0, 9)) == 0:
            return draw(st.sampled_from([x, x, at()]))
        lb, ub = x[1], x[2]
        k = draw(st.integers(0, 5))
        if op == "G":
            l2 = draw(st.integers(lb, ub + (k == 0)))
            u2 = draw(st.integers(l2, max(l2, ub + (k == 1))))
            return [draw(st.sampled_from(["G", "F"])), l2, u2, x[3] if k else go(x[3])]
        if op == "F":
            return ["F", max(0, lb - draw(st.integers(0, 2))), ub + draw(st.integers(0, 1)), x[3] if k else go(x[3])]
        if op == "U":
            return draw(st.sampled_from([["F", lb, ub, x[4]], ["|", x[4], ["F", lb, ub, x[4]]], ["U", lb, ub + 1, x[3], x[4]], ["U", lb, ub, ["t"], x[4]],
                                         ["|", ["G", lb, lb, x[3]], ["F", lb, lb, x[4]]], ["U", max(0, lb - 1), ub, x[3], x[4]]]))
        return draw(st.sampled_from([["R", lb, max(lb, ub - 1), x[3], x[4]], ["|", ["G", lb, ub, x[4]], ["F", lb, max(lb, ub - 1), x[3]]], ["F", lb, ub, x[4]], ["G", lb, lb, x[4]]]))
    return go(x)


def iv_text(e):
    return bz.text(e) if isinstance(e, list) else e


@st.composite
def int_atoms(draw):
    """name -> expression over the ints i, j; values stay far from overflow and constants are small."""
    def term():
        v = ["v", draw(st.sampled_from(["i", "i", "j"]))]
        k = draw(st.integers(0, 12))
        c = ["c", draw(st.integers(0, 3))]
        if k <= 3:
            return v
        if k == 4:
            return ["+", v, c]
        if k == 5:
            return ["-", v, c]
        if k == 6:
            return [draw(st.sampled_from(["+", "-"])), v, ["v", draw(st.sampled_from(["i", "j"]))]]
        if k == 7:
            return ["neg", v]
        if k > 9:
            e = v
            for _ in range(draw(st.integers(2, 4))):
                e = ["+", e, draw(st.sampled_from([c, ["v", "j"], v]))]
            return e
        if k == 8:
            return ["*", ["c", draw(st.integers(0, 3))], draw(st.sampled_from([v, ["+", v, c]]))]
        return [draw(st.sampled_from(["/", "%"])), v, ["c", draw(st.integers(2, 3))]]
    res = {}
    for a in ["x", "y", "z"][:draw(st.integers(1, 3))]:
        op = draw(st.sampled_from(["==", "!=", "<", "<=", ">", ">="]))
        rhs = term() if draw(st.integers(0, 2)) == 0 else ["c", draw(st.integers(-3, 3))]
        res[a] = [op, term(), rhs]
    return res


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def iev(e, i, j):
    op = e[0]
    if op == "v":
        return i if e[1] == "i" else j
    if op == "c":
        return e[1]
    if op == "neg":
        return -iev(e[1], i, j)
    a, b = iev(e[1], i, j), iev(e[2], i, j)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: tdiv(a, b), "%": lambda: a - b * tdiv(a, b),
            "==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()


def itext(e):
    op = e[0]
    if op == "v":
        return e[1]
    if op == "c":
        return str(e[1]) if e[1] >= 0 else "(-%d)" % -e[1]
    if op == "neg":
        return "(-%s)" % itext(e[1])
    return "(%s %s %s)" % (itext(e[1]), op, itext(e[2]))


@st.composite
def cases(draw, ints):
    ths = draw(st.lists(st.sampled_from(["uflia", "qf_uflia"] + ([] if ints else ["qf_bv"])), min_size=1, max_size=2, unique=True))
    c = {"runs": [[t, s] for t in ths for s in draw(st.sampled_from([[0], [0], [1], [0, 1]]))]}
    ops = [o for o in OPS if all(o in SUPPORTED[t] for t in ths)]
    c["ints"] = draw(int_atoms()) if ints else {}
    fixed = ints and draw(st.integers(0, 2)) == 0
    if fixed:  # the values of i and j decide the comparisons
        c["ints"].update({"vi": ["==", ["v", "i"], ["c", draw(st.integers(-3, 4))]], "vj": ["==", ["v", "j"], ["c", draw(st.integers(-3, 4))]]})
    names = draw(st.lists(st.sampled_from(NAMES[:3] * 2 + NAMES), min_size=1 - bool(ints), max_size=1 if ints else 3, unique=True))
    if ints:
        names = [n for n in names if n not in ("i",)]
    c["names"], c["cnt"] = names, {}
    if ints and not fixed and draw(st.integers(0, 2)) == 0:  # counting aggregations
        c["names"] = names = NAMES[:draw(st.integers(2, 3))]
        c["ints"] = {}
        c["runs"] = [[t, 0] for t in ths]  # what they count past the end of a trace is not specified
        for a in ["x", "y"][:draw(st.integers(1, 2))]:
            els = draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(names)), min_size=2, max_size=4))
            c["cnt"][a] = [draw(st.sampled_from(["exactly", "atleast", "atmost"])), draw(st.integers(0, len(els))), [list(e) for e in els]]
    atoms = names + list(c["ints"]) + list(c["cnt"]) * 2
    ub = draw(st.sampled_from([1, 2, 3, 3, 5, 9]))
    if fixed:
        x = ["a", draw(st.sampled_from(sorted(set(c["ints"]) - {"vi", "vj"})))]
        fs = []
        for x in [x, ["!", x]]:
            f = ["&", ["a", "vi"], ["a", "vj"], x]
            fs.append(f if draw(st.booleans()) else [draw(st.sampled_from(["G", "F"])), *draw(gen.intervals(min(ub, 2))), f])
    elif draw(st.integers(0, 2)) == 0:
        fs = draw(gen.formulas(atoms, ops, max_formulas=2, max_depth=3, max_ub=min(ub, 4)))
    else:
        fs = [draw(tight(atoms, ops, ub)) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    c["fs"] = fs
    c["passes"] = draw(st.lists(st.sampled_from(PASSES + ["flatten_multi_operators"] * 3 * ints), min_size=1, max_size=3)) if draw(st.integers(0, 3)) <= ints else []
    # rewriting keeps the meaning on complete traces only
    ok = STRICT_PASSES if any(s for _, s in c["runs"]) else [x for x in PASSES if x != "to_nnf" or ths == ["uflia"]]
    c["passes"] = [x for x in c["passes"] if x in ok]
    c["print"] = draw(st.integers(0, 3)) > 0
    return c


def run(env, c):
    groups = tt.bool_groups(c["names"])
    ints, cnt = c["ints"], c.get("cnt") or {}
    if cnt:  # one group of everything
        rows = []
        for vals in itertools.product([0, 1], repeat=len(c["names"])):
            row = dict(zip(c["names"], vals))
            for a, (k, n, els) in cnt.items():
                m = sum(row[e] ^ neg for neg, e in els)
                row[a] = int({"exactly": m == n, "atleast": m >= n, "atmost": m <= n}[k])
            rows.append(row)
        groups = {"all": rows}
    if ints:
        groups["int"] = tt.int_group({a: (lambda i, j, e=e: iev(e, i, j)) for a, e in ints.items()})
    fs = c["fs"]
    try:
        allf = fs + ([["&"] + fs] if len(fs) > 1 else [])
        full = [int(tt.satisfiable(f, groups)) for f in allf]
        some = [tt.satisfiable_any(f, groups, set(ints)) for f in allf] if any(s for _, s in c["runs"]) else None
    except tt.TooBig:
        raise Rejected()
    if max(tt.cplen(f) for f in fs) > 40:
        raise Rejected()
    sub = {a: itext(e) for a, e in ints.items()}
    sub.update({a: "for%s(e: {%s}, %d)(e)" % (k, ", ".join("!" * neg + e for neg, e in els), n) for a, (k, n, els) in cnt.items()})
    text = "INPUT\n" + "".join("  %s: bool;\n" % n for n in c["names"]) + ("  i, j: int;\n" if ints else "") + "FTSPEC\n" + \
        "".join("  s%d: %s;\n" % (n, logic.c2po(f, sub=sub)) for n, f in enumerate(fs))
    env.write("a.c2po", text)
    ls = (["enable_booleanizer"] if ints or cnt else []) + ["parse_c2po a.c2po", "type_check", "desugar"] + c["passes"]
    for t, s in c["runs"]:
        ls += ["echo @@%s" % t, "check_sat %s%s%s --smt-max-time 3" % (t, " --print" if c["print"] else "", " --strict" if s else "")]
    env.write("x.cmd", "\n".join(ls) + "\n")
    r = env.c2po(["--script", "x.cmd"], timeout=120)
    what = "\n--- a.c2po\n%s--- script\n%s\n--- output\n%s" % (text, "\n".join(ls), e2e.text_tail(r.text, 1500))
    if r.crashed or r.timeout:
        raise Violation("internal failure%s" % what)
    timed = "timed out" in r.text
    if (r.rc and not timed) or "unsupported" in r.text or "not implemented" in r.text:
        raise Violation("satisfiability checking fails (exit %d)%s" % (r.rc, what))
    blocks = r.out.split("@@")[1:]
    labels, seen = [], set()
    got_all = []
    for (t, s), b in zip(c["runs"], blocks):
        if c["print"]:
            got = dict(re.findall(r"^(s\d+|program) : (\w+)$", b, re.M))
        else:
            got = None
        got_all.append(got)
    if not c["print"]:
        # warnings are not separated by the echoes: count them over all runs
        warned = {}
        for n, res in re.findall(r"(?:specification '(s\d+)'|program) is (\w+)", r.text):
            warned.setdefault(n or "program", []).append(res)
        got_all = None
    for idx, f in enumerate(allf):
        name = "s%d" % idx if idx < len(fs) else "program"
        want = [some[idx] if s else full[idx] for _, s in c["runs"]]
        for (t, s), w in zip(c["runs"], want):
            labels.append("%s%s:%s" % (t, " strict" if s else "", {0: "unsat", 1: "sat", None: "undecided"}[w]))
            seen.add(w)
        if got_all is None:
            if timed or None in want:
                continue
            w = warned.get(name, [])
            if "unknown" in w:
                continue
            if len(w) != want.count(0):
                raise Violation("%s is unsatisfiable in %d of the runs, but warned of %d times: %s%s" % (name, want.count(0), len(w), logic.c2po(f, sub=sub), what))
            continue
        for (t, s), w, g in zip(c["runs"], want, got_all):
            res = g.get(name)
            if res is None:
                if not timed:
                    raise Violation("no result for %s from %s%s" % (name, t, what))
                continue
            if s and w is None and full[idx] == 1:
                w = 1
            if res == "unknown" or w is None:
                continue
            if res != ("sat" if w else "unsat"):
                raise Violation("%s%s reports %s for what is %s by %s trace: %s: %s%s" % (
                    t, " --strict" if s else "", res, "satisfied" if w else "not satisfied", "some" if w else "any", name, logic.c2po(f, sub=sub), what))
    return {"nontrivial": {0, 1} <= seen or (0 in seen and len(c["runs"]) > 1) or 0 in seen and any(e2e.nest(f) for f in fs), "labels": sorted(set(labels)) + ["pass:" + p for p in sorted(set(c["passes"]))] + (["timed out"] if timed else [])}


@st.composite
def file_cases(draw):
    c = draw(cases(False))
    c["runs"] = c["runs"][:1]
    c["passes"] = [x for x in c["passes"] if x != "to_nnf"]
    c["loc"] = draw(st.sampled_from(["new", "new", "file", "dir"]))
    c["only"] = draw(st.integers(0, len(c["fs"]) - 1)) if draw(st.integers(0, 3)) == 0 else None
    return c


def solve(env, name):
    r = env.run(["z3", "-T:5", env.path(name)], timeout=30)
    return (r.out.split() or ["?"])[0]


def run_files(env, c):
    """write_smt_encoding: one problem per formula, with the answer of the formula."""
    groups = tt.bool_groups(c["names"])
    fs, (t, s) = c["fs"], c["runs"][0]
    if max(tt.cplen(f) for f in fs) > 40:
        raise Rejected()
    try:
        full = [int(tt.satisfiable(f, groups)) for f in fs]
        want = [tt.satisfiable_any(f, groups) for f in fs] if s else full
    except tt.TooBig:
        raise Rejected()
    text = "INPUT\n" + "".join("  %s: bool;\n" % n for n in c["names"]) + "FTSPEC\n" + "".join("  s%d: %s;\n" % (n, logic.c2po(f)) for n, f in enumerate(fs))
    env.write("a.c2po", text)
    if c["loc"] == "dir":
        os.makedirs(env.path("out"))
    elif c["loc"] == "file":
        env.write("out", "(check-sat)\n")
    ls = ["parse_c2po a.c2po", "type_check", "desugar"] + c["passes"] + ["write_smt_encoding out %s%s%s" % (t, " --strict" if s else "", "" if c["only"] is None else " --formula s%d" % c["only"])]
    env.write("x.cmd", "\n".join(ls) + "\n")
    r = env.c2po(["--script", "x.cmd"])
    what = "\n--- a.c2po\n%s--- script\n%s\n--- output\n%s" % (text, "\n".join(ls), e2e.text_tail(r.text, 1500))
    if r.crashed or r.timeout or r.rc or r.out.strip():
        raise Violation("write_smt_encoding fails or prints something (exit %d)%s" % (r.rc, what))
    which = range(len(fs)) if c["only"] is None else [c["only"]]
    files = {n: "out/s%d.smt2" % n for n in which}
    if len(files) == 1 and os.path.isfile(env.path("out")):
        if c["loc"] == "dir":
            raise Violation("the directory was replaced%s" % what)
        files = {n: "out" for n in which}
    elif sorted(os.listdir(env.path("out"))) != sorted("s%d.smt2" % n for n in which):
        raise Violation("files written: %s%s" % (sorted(os.listdir(env.path("out"))), what))
    for n, f in files.items():
        w = 1 if want[n] is None and full[n] else want[n]
        g = solve(env, f)
        if g not in ("sat", "unsat", "unknown", "timeout"):
            raise Violation("%s is no problem that z3 accepts: %s%s\n%s" % (f, g, what, env.read(f)))
        if w is not None and g in ("sat", "unsat") and g != ("sat" if w else "unsat"):
            raise Violation("%s is %s, the formula is %s: %s%s" % (f, g, "satisfiable" if w else "unsatisfiable", logic.c2po(fs[n]), what))
    return {"nontrivial": any(w == 0 for w in want) and any(e2e.nest(f) for f in fs), "labels": ["file %s%s" % (t, " strict" if s else ""), "location:" + c["loc"]]}


@st.composite
def pinned(draw):
    th = draw(st.sampled_from(["uflia", "qf_uflia", "qf_bv", "qf_bv"]))
    ops = [o for o in OPS if o in SUPPORTED[th]]
    names = NAMES[:draw(st.sampled_from([1, 2, 2]))]
    ub = draw(st.sampled_from([2, 3, 5, 7, 11]))
    if draw(st.booleans()):
        # one operator with literals
        op = draw(st.sampled_from([o for o in ops if o in T_UN + T_BI]))
        lit = lambda: draw(st.sampled_from([["a", n] for n in names] + [["!", ["a", n]] for n in names]))
        lb, ub = draw(gen.intervals(ub))
        f = [op, lb, ub, lit()] if op in T_UN else [op, lb, ub, lit(), lit()]
        if draw(st.integers(0, 2)) == 0:
            op = draw(st.sampled_from(T_UN))
            lb, ub = draw(gen.intervals(3))
            f = [op, lb, ub, f]
    else:
        f = draw(gen.formula(names, ops, max_depth=3, max_ub=min(ub, 5), root=draw(st.booleans())))
    n = logic.wpd(f) + 1
    return {"theory": th, "names": names, "f": f, "n": n, "pin": draw(st.sampled_from(T_UN)),
            "traces": [{s: draw(gen.bool_column(n)) for s in names} for _ in range(3)]}


def run_pinned(env, c):
    f, n = c["f"], c["n"]
    if n * len(c["names"]) > 40 or tt.cplen(f) > 40:
        raise Rejected()
    specs, want = [], []
    for tr in c["traces"]:
        pins = [[c["pin"], t, t, l] if t else l for s in c["names"] for t in range(n) for l in [["a", s] if tr[s][t] else ["!", ["a", s]]]]
        # all inputs are given: the formula or its negation holds
        v = logic.truth(f, tr, n)[0]
        specs += [["&", f] + pins, ["&", ["!", f]] + pins]
        want += [v, 1 - v]
    text = "INPUT\n  %s: bool;\nFTSPEC\n" % ", ".join(c["names"]) + "".join("  s%d: %s;\n" % (i, logic.c2po(x)) for i, x in enumerate(specs))
    env.write("a.c2po", text)
    ls = ["parse_c2po a.c2po", "type_check", "desugar", "check_sat %s --print --smt-max-time 3" % c["theory"]]
    env.write("x.cmd", "\n".join(ls) + "\n")
    r = env.c2po(["--script", "x.cmd"], timeout=120)
    what = "\n--- a.c2po\n%s--- script\n%s\n--- output\n%s" % (text, "\n".join(ls), e2e.text_tail(r.text, 1500))
    timed = "timed out" in r.text
    if r.crashed or r.timeout or (r.rc and not timed) or "unsupported" in r.text or "not implemented" in r.text:
        raise Violation("satisfiability checking fails (exit %d)%s" % (r.rc, what))
    got = dict(re.findall(r"^(s\d+) : (\w+)$", r.out, re.M))
    for i, w in enumerate(want):
        res = got.get("s%d" % i)
        if res is None and not timed:
            raise Violation("no result for s%d%s" % (i, what))
        if res in ("sat", "unsat") and res != ("sat" if w else "unsat"):
            raise Violation("s%d fixes all inputs, on which the formula is %s, but %s reports %s: %s%s" % (i, bool(w), c["theory"], res, logic.c2po(specs[i]), what))
    return {"nontrivial": logic.n_temporal(f) > 0 and n > 1, "labels": [c["theory"]] + (["timed out"] if timed else []) + ["op:" + o for o in sorted({p[0] for p in logic.walk(f)})]}


CHECK = Check("P16", [
    Part("bool", lambda: cases(False), run, 500, 12000, "propositional formulas, mostly conjunctions of a formula and the negation of something it nearly implies"),
    Part("pinned", pinned, run_pinned, 500, 12000, "a formula, or its negation, with all inputs up to its bound fixed to those of a random trace: satisfiable exactly when it holds there"),
    Part("ints", lambda: cases(True), run, 250, 6000, "formulas over comparisons of integer inputs"),
    Part("files", file_cases, run_files, 250, 6000, "the problems that write_smt_encoding writes, solved separately"),
], rule="non-trivial: the case has an unsatisfiable specification with a temporal operator, or both answers; distinct by the whole case",
    assumptions=["z3 answers correctly", "'unknown' and time-outs are accepted answers"])

if __name__ == "__main__":
    main(CHECK)
