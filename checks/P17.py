import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import itertools
import re
import e2e, gen, logic, tt
import P16
from hypothesis import strategies as st

UN, BI = ("G", "F"), ("U", "R")


# ---------------------------------------------------------------- bounds
# int | ["b", i] | ["M"] | ["+"|"*"|"-"|"max"|"min", x, y]

def add(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x + y
    if x == 0:
        return y
    if y == 0:
        return x
    return ["+", x, y]


def btext(x, level=None):
    """With level, only the parentheses that the precedence of the operators needs."""
    if level is not None and not isinstance(x, int) and x[0] in ("+", "-", "*"):
        p = 2 if x[0] == "*" else 1
        s = "%s %s %s" % (btext(x[1], p), x[0], btext(x[2], p + 1))
        return s if p >= level else "(%s)" % s
    if isinstance(x, int):
        return str(x)
    if x[0] == "b":
        return "b%d" % x[1]
    if x[0] == "M":
        return "M"
    if x[0] in ("max", "min"):
        low = None if level is None else 0
        return "%s(%s, %s)" % (x[0], btext(x[1], low), btext(x[2], low))
    return "(%s %s %s)" % (btext(x[1]), x[0], btext(x[2]))


def bval(x, e):
    if isinstance(x, int):
        return x
    if x[0] == "b":
        return e["b%d" % x[1]]
    if x[0] == "M":
        return e["M"]
    a, b = bval(x[1], e), bval(x[2], e)
    return {"+": a + b, "-": a - b, "*": a * b, "max": max(a, b), "min": min(a, b)}[x[0]]


def bvars(x):
    if isinstance(x, int):
        return set()
    if x[0] == "b":
        return {"b%d" % x[1]}
    if x[0] == "M":
        return {"M"}
    return bvars(x[1]) | bvars(x[2])


def instantiate(phi, e):
    """The concrete formula, or None if an interval is empty for these bounds."""
    op = phi[0]
    if op in ("a", "t", "f"):
        return phi
    ch = [instantiate(c, e) for c in logic.children(phi)]
    if any(c is None for c in ch):
        return None
    if op in UN + BI:
        lb, ub = bval(phi[1], e), bval(phi[2], e)
        if lb < 0 or lb > ub:
            return None
        return [op, lb, ub] + ch
    return [op] + ch


REL = {"=": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


LEVEL = {"->": 1, "<->": 1, "|": 2, "&": 3, "U": 4, "R": 4}


def etext(phi, top=False, level=None):
    """With level, only the parentheses that the precedence of the operators needs."""
    op = phi[0]
    if level is not None and op in LEVEL:
        p, x = LEVEL[op], phi[1:]
        if op in BI:
            s = "%s %s[%s,%s] %s" % (etext(phi[3], level=p), op, btext(phi[1], 0), btext(phi[2], 0), etext(phi[4], level=p + 1))
        else:
            s = (" %s " % op).join([etext(x[0], level=p)] + [etext(c, level=p + 1) for c in x[1:]])
        return s if p >= level else "(%s)" % s
    if level is not None and op == "!":
        return "!" + etext(phi[1], level=5)
    if level is not None and op in UN:
        return "%s[%s,%s] %s" % (op, btext(phi[1], 0), btext(phi[2], 0), etext(phi[3], level=5))
    if op == "a":
        return phi[1]
    if op in ("t", "f"):
        return "true" if op == "t" else "false"
    if op == "!":
        return "!" + etext(phi[1])
    if op in UN:
        return "%s[%s,%s] %s" % (op, btext(phi[1]), btext(phi[2]), etext(phi[3]))
    if op in BI:
        s = "%s %s[%s,%s] %s" % (etext(phi[3]), op, btext(phi[1]), btext(phi[2]), etext(phi[4]))
    else:
        s = (" %s " % op).join(etext(c) for c in phi[1:])
    return s if top else "(%s)" % s


# ---------------------------------------------------------------- generators

@st.composite
def rewritten(draw, x, iv=None):
    """A formula equivalent to x on complete traces; bounds may be symbolic."""
    def constant(y):
        """A formula that is true on complete traces wherever its intervals are not empty, and its negation."""
        lb, ub = iv()
        t = [["t"], ["|", y, ["!", y]], ["!", ["f"]]][draw(st.integers(0, 2))]
        k = draw(st.integers(0, 4))
        if k <= 1:
            r = ["U", lb, ub, [["t"], t][draw(st.integers(0, 1))], t]
        elif k == 2:
            r = ["F", lb, ub, t]
        elif k == 3:
            r = ["|", ["U", lb, ub, ["t"], y], ["U", lb, ub, ["t"], ["!", y]]]
        else:
            r = ["R", lb, ub, y, t]
        return r

    def go(x):
        op = x[0]
        if iv and draw(st.integers(0, 11)) == 7:
            c = constant(x if op == "a" else ["t"])
            return ["&", x, c] if draw(st.booleans()) else ["|", ["!", c], x]
        if op in ("a", "t", "f"):
            return x
        k = draw(st.integers(0, 9))
        if op == "!":
            y = x[1]
            if y[0] in UN and k < 6:
                return [{"G": "F", "F": "G"}[y[0]], y[1], y[2], ["!", go(y[3])]]
            if y[0] in BI and k < 6:
                return [{"U": "R", "R": "U"}[y[0]], y[1], y[2], ["!", go(y[3])], ["!", go(y[4])]]
            if y[0] in ("&", "|") and k < 6:
                return [{"&": "|", "|": "&"}[y[0]]] + [["!", go(c)] for c in y[1:]]
            return ["!", go(y)]
        if op in ("&", "|"):
            cs = [go(c) for c in x[1:]]
            if k < 4:
                cs = cs[::-1]
            elif k < 6:
                cs.append(cs[0])
            return [op] + cs
        if op == "->":
            return ["|", ["!", go(x[1])], go(x[2])] if k < 6 else ["->", ["!", go(x[2])], ["!", go(x[1])]]
        if op == "<->":
            return ["<->", go(x[2]), go(x[1])]
        lb, ub = x[1], x[2]
        if op in UN:
            y = x[3]
            if y[0] == op and k < 5:
                return [op, add(lb, y[1]), add(ub, y[2]), go(y[3])]
            if y[0] == {"G": "&", "F": "|"}[op] and k < 5:
                return [y[0]] + [[op, lb, ub, go(c)] for c in y[1:]]
            if k < 3:
                return ["U", lb, ub, ["t"], go(y)] if op == "F" else ["R", lb, ub, ["f"], go(y)]
            if k == 3:
                return ["!", [{"G": "F", "F": "G"}[op], lb, ub, ["!", go(y)]]]
            if k == 4 and isinstance(lb, int) and isinstance(ub, int) and ub > lb:
                m = draw(st.integers(lb, ub - 1))
                return [{"G": "&", "F": "|"}[op], [op, lb, m, go(y)], [op, m + 1, ub, go(y)]]
            if k == 5 and lb != 0:
                inner = [op, 0, ub - lb, go(y)] if isinstance(lb, int) and isinstance(ub, int) and ub >= lb else None
                if inner:
                    return [draw(st.sampled_from(["G", "F"])), lb, lb, inner]
            if k == 6:
                return [op, 0, 0, [op, lb, ub, go(y)]]
            return [op, lb, ub, go(y)]
        p, q = x[3], x[4]
        if isinstance(lb, int) and isinstance(ub, int):
            if k < 2 and ub > lb:
                p2, q2 = go(p), go(q)
                rest = [op, lb + 1, ub, p2, q2]
                if op == "U":
                    return ["|", ["F", lb, lb, q2], ["&", ["G", lb, lb, p2], rest]]
                return ["&", ["G", lb, lb, q2], ["|", ["F", lb, lb, p2], rest]]
            if k == 2 and lb and ub >= lb:
                return ["F", lb, lb, [op, 0, ub - lb, go(p), go(q)]]
        if k == 3:
            return ["!", [{"U": "R", "R": "U"}[op], lb, ub, ["!", go(p)], ["!", go(q)]]]
        if k == 4:
            return [{"U": "&", "R": "|"}[op], x, [{"U": "F", "R": "G"}[op], lb, ub, q]]
        return [op, lb, ub, go(p), go(q)]
    return go(x)


@st.composite
def off(draw, x):
    """x with one small change."""
    n = draw(st.integers(0, logic.size(x) - 1))
    cnt = [-1]

    def go(x):
        cnt[0] += 1
        hit = cnt[0] == n
        y = logic.with_children(x, [go(c) for c in logic.children(x)])
        if not hit:
            return y
        op = y[0]
        if op in UN + BI:
            k = draw(st.integers(0, 4))
            y = list(y)
            if k == 0:
                y[0] = {"G": "F", "F": "G", "U": "R", "R": "U"}[op]
            elif k == 1:
                y[2] = add(y[2], 1)
            elif k == 2:
                y[1], y[2] = add(y[1], 1), add(y[2], 1)
            elif k == 3 and isinstance(y[1], int) and y[1] > 0:
                y[1] -= 1
            elif op in BI:
                y[3], y[4] = y[4], y[3]
            return y
        if op in ("&", "|"):
            return [{"&": "|", "|": "&"}[op]] + y[1:]
        if op in ("->", "<->"):
            return [op, y[2], ["!", y[1]]]
        return ["!", y]
    return go(x)


@st.composite
def base(draw, atoms, ops, iv, depth):
    def go(d):
        if d <= 0 or draw(st.integers(0, 7)) == 0:
            if draw(st.integers(0, 11)) == 7:
                return draw(st.sampled_from([["t"], ["f"]]))
            return draw(st.sampled_from([["a", a] for a in atoms] * 2 + [["!", ["a", a]] for a in atoms]))
        op = draw(st.sampled_from(ops))
        if op in UN:
            lb, ub = iv()
            return [op, lb, ub, go(d - 1)]
        if op in BI:
            lb, ub = iv()
            ch = [go(d - 1), go(d - 1)]
            k = draw(st.integers(0, 5))
            if k <= 1:  # one operand looks further ahead than the other
                n = draw(st.integers(1, 6))
                ch[k] = [draw(st.sampled_from(UN)), n, n + draw(st.integers(0, 1)), go(0)]
            return [op, lb, ub] + ch
        if op == "!":
            return ["!", go(d - 1)]
        return [op, go(d - 1), go(d - 1)]
    return go(depth)


@st.composite
def family(draw, atoms, ops, iv):
    x = draw(base(atoms, ops, iv, draw(st.integers(1, 2))))
    fs = [x]
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        y = draw(rewritten(fs[-1], iv))
        k = draw(st.integers(0, 5))
        if k <= 1:
            y = draw(off(y))
        elif k == 2:
            y = draw(rewritten(y, iv))
        fs.append(y)
    return fs


@st.composite
def concrete(draw):
    ths = draw(st.lists(st.sampled_from(["uflia", "qf_uflia", "qf_bv"]), min_size=1, max_size=2, unique=True))
    c = {"runs": [[t, s] for t in ths for s in draw(st.sampled_from([[0], [0], [0], [1], [0, 1]]))]}
    names = draw(st.lists(st.sampled_from(P16.NAMES), min_size=1, max_size=3, unique=True))
    ub = draw(st.sampled_from([1, 2, 3, 5, 8]))
    ops = ["!", "&", "|", "->", "<->"] + ["G", "F", "U", "R"] * 3
    fs = draw(family(names, ops, lambda: draw(gen.intervals(ub))))
    ok = set.intersection(*[P16.SUPPORTED[t] for t in ths])
    c["fs"] = [basic(f, ok) for f in fs]
    c["names"] = names
    c["quiet"] = draw(st.integers(0, 9)) == 0
    return c


def basic(phi, ok):
    """phi with the operators in ok only."""
    op, ch = phi[0], [basic(c, ok) for c in logic.children(phi)]
    if op == "R" and "R" not in ok:
        return ["!", ["U", phi[1], phi[2], ["!", ch[0]], ["!", ch[1]]]]
    if op == "->" and "->" not in ok:
        return ["|", ["!", ch[0]], ch[1]]
    return logic.with_children(phi, ch)


def expected(pairs, groups, lens):
    """Do the formulas of all pairs agree?  lens: "full", or "any"."""
    res = []
    for x, y in pairs:
        d = ["!", ["<->", x, y]]
        res.append(int(tt.satisfiable(d, groups)) if lens == "full" else tt.satisfiable_any(d, groups))
    if 1 in res:
        return "not-equiv"
    return None if None in res else "equiv"


def run_concrete(env, c):
    groups = tt.bool_groups(c["names"])
    fs = c["fs"]
    if max(tt.cplen(f) for f in fs) > 30:
        raise Rejected()
    try:
        want = [expected(list(zip(fs, fs[1:])), groups, "any" if s else "full") for _, s in c["runs"]]
    except tt.TooBig:
        raise Rejected()
    text = "INPUT\n" + "".join("  %s: bool;\n" % n for n in c["names"]) + "FTSPEC\n" + "".join("  s%d: %s;\n" % (n, logic.c2po(f)) for n, f in enumerate(fs))
    env.write("a.c2po", text)
    ls = ["parse_c2po a.c2po", "type_check", "desugar"]
    for t, s in c["runs"]:
        ls += ["echo @@%s" % t, "check_equiv %s%s%s --smt-max-time 3" % (t, " --strict" if s else "", " --quiet" if c["quiet"] else "")]
    judge(env, ls, text, c["runs"], want, c["quiet"])
    return {"nontrivial": any(want) and any(e2e.nest(f) for f in fs), "labels": ["%s%s:%s" % (t, " strict" if s else "", w) for (t, s), w in zip(c["runs"], want)]}


def run_files(env, c):
    """write_equiv_smt_encoding: one problem per pair of neighbours, satisfiable iff they differ."""
    groups = tt.bool_groups(c["names"])
    fs, (t, s) = c["fs"], c["runs"][0]
    if max(tt.cplen(f) for f in fs) > 30:
        raise Rejected()
    pairs = list(zip(fs, fs[1:]))
    try:
        want = [expected([p], groups, "any" if s else "full") for p in pairs]
    except tt.TooBig:
        raise Rejected()
    text = "INPUT\n" + "".join("  %s: bool;\n" % n for n in c["names"]) + "FTSPEC\n" + "".join("  s%d: %s;\n" % (n, logic.c2po(f)) for n, f in enumerate(fs))
    env.write("a.c2po", text)
    ls = ["parse_c2po a.c2po", "type_check", "desugar", "write_equiv_smt_encoding out %s%s" % (t, " --strict" if s else "")]
    env.write("x.cmd", "\n".join(ls) + "\n")
    r = env.c2po(["--script", "x.cmd"])
    what = "\n--- a.c2po\n%s--- script\n%s\n--- output\n%s" % (text, "\n".join(ls), e2e.text_tail(r.text, 1500))
    if r.crashed or r.timeout or r.rc or r.out.strip():
        raise Violation("write_equiv_smt_encoding fails or prints something (exit %d)%s" % (r.rc, what))
    files = ["out"] if len(pairs) == 1 and os.path.isfile(env.path("out")) else ["out/equiv_s%d_s%d.smt2" % (n, n + 1) for n in range(len(pairs))]
    if files != ["out"] and sorted(os.listdir(env.path("out"))) != sorted(os.path.basename(f) for f in files):
        raise Violation("files written: %s%s" % (sorted(os.listdir(env.path("out"))), what))
    for w, f in zip(want, files):
        g = P16.solve(env, f)
        if g not in ("sat", "unsat", "unknown", "timeout"):
            raise Violation("%s is no problem that z3 accepts: %s%s\n%s" % (f, g, what, env.read(f)))
        if w and g in ("sat", "unsat") and g != ("sat" if w == "not-equiv" else "unsat"):
            raise Violation("%s is %s, the formulas are %s%s" % (f, g, w, what))
    return {"nontrivial": any(want) and any(e2e.nest(f) for f in fs), "labels": ["file %s%s:%s" % (t, " strict" if s else "", w) for w in want]}


def judge(env, ls, text, runs, want, quiet=False):
    env.write("x.cmd", "\n".join(ls) + "\n")
    r = env.c2po(["--script", "x.cmd"], timeout=120)
    what = "\n--- input\n%s--- script\n%s\n--- output\n%s" % (text, "\n".join(ls), e2e.text_tail(r.text, 1500))
    if r.crashed or r.timeout:
        raise Violation("internal failure%s" % what)
    timed = "timed out" in r.text
    if r.rc and not timed:
        raise Violation("equivalence checking fails (exit %d)%s" % (r.rc, what))
    for (t, s), w, b in zip(runs, want, r.out.split("@@")[1:]):
        got = b.split()[1:]
        if quiet:
            if got:
                raise Violation("check_equiv --quiet prints %s%s" % (got, what))
            continue
        if len(got) != 1 or got[0] not in ("equiv", "not-equiv", "unknown"):
            raise Violation("check_equiv prints %s%s" % (got, what))
        if got[0] != "unknown" and w is not None and got[0] != w:
            raise Violation("%s%s reports %s, the formulas are %s%s" % (t, " --strict" if s else "", got[0], w, what))
    return r


@st.composite
def symbolic(draw):
    nb = draw(st.integers(1, 3))
    atoms = draw(st.lists(st.sampled_from(["a0", "a1", "a2", "p0", "p1"]), min_size=1, max_size=3, unique=True))
    use_m = draw(st.integers(0, 4)) == 0
    b = lambda: ["b", draw(st.integers(0, nb - 1))]

    def bound():
        k = draw(st.integers(0, 8))
        if k <= 3:
            return b()
        if k <= 5:
            return draw(st.integers(0, 2))
        if k == 6:
            return [draw(st.sampled_from(["max", "min"])), b(), b()]
        return ["+", b(), draw(st.sampled_from([1, 2, b()]))]

    def term(depth=2):
        if depth == 0 or draw(st.integers(0, 3)) == 0:
            return b() if draw(st.booleans()) else draw(st.integers(0, 3))
        op = draw(st.sampled_from(["+", "-", "*"]))
        return [op, draw(st.integers(0, 3)) if op == "*" else term(depth - 1), term(depth - 1)]

    def iv():
        k = draw(st.integers(0, 4))
        if k == 0:
            x = bound()
            return x, x
        if k == 1:
            return 0, ["M"] if use_m and draw(st.booleans()) else bound()
        x = bound()
        return x, draw(st.sampled_from([add(x, bound()), ["max", x, bound()], bound()]))
    ops = ["!", "&", "|", "->", "<->"] + ["G", "F", "U", "R"] * 3
    fs = draw(family(atoms, ops, iv))
    cs = []
    for i in range(nb):
        cs.append(["<=", ["b", i], draw(st.integers(0, 3))] if draw(st.integers(0, 5)) else [">=", ["b", i], draw(st.integers(0, 1))])
    for _ in range(draw(st.integers(0, 2))):
        cs.append([draw(st.sampled_from(["=", "!=", "<", "<=", ">", ">="])), draw(st.sampled_from([bound, term]))(), draw(st.sampled_from([bound, term]))()])
    if use_m:
        cs.append([draw(st.sampled_from(["<=", "="])), ["M"], draw(st.integers(0, 5))])
    # every bound is declared by its use in the constraints above; a bound that no formula uses is fine
    return {"nb": nb, "fs": fs, "cs": draw(st.permutations(cs)), "strict": draw(st.integers(0, 5)) == 0, "bare": draw(st.booleans())}


def run_symbolic(env, c):
    fs, cs = c["fs"], c["cs"]
    atoms = sorted(set(a for f in fs for a in logic.atoms(f)))
    groups = tt.bool_groups(atoms)
    names = ["b%d" % i for i in range(c["nb"])]

    def in_formula(f):
        return set().union(*[bvars(p[1]) | bvars(p[2]) for p in logic.walk(f) if p[0] in UN + BI])
    has_m = any("M" in bvars(x[1]) | bvars(x[2]) for x in cs) or any("M" in in_formula(f) for f in fs)
    bounded = all(any(x[0] == "<=" and x[1] == ["b", i] and isinstance(x[2], int) for x in cs) for i in range(c["nb"]))
    pairs = list(zip(fs, fs[1:]))
    res = []
    work = 0
    for x, y in pairs:
        found, tried, unclear = None, 0, False
        for vals in itertools.product(range(4), repeat=c["nb"]):
            for m in range(6) if has_m else [None]:
                e = dict(zip(names, vals), M=m)
                if not all(REL[r](bval(p, e), bval(q, e)) for r, p, q in cs):
                    continue
                cx, cy = instantiate(x, e), instantiate(y, e)
                if cx is None or cy is None:
                    continue
                d = ["!", ["<->", cx, cy]]
                work += logic.size(d) * tt.cplen(d)
                if tt.cplen(d) > 14 or work > 60000:
                    raise Rejected()
                tried += 1
                try:
                    if c["strict"]:
                        r = tt.satisfiable_any(d, groups)
                    elif m is None:
                        r = int(tt.satisfiable(d, groups))
                    else:
                        n = m + 1
                        of = {a: a for a in groups}
                        sp = tt.Space(groups, tt.used(d, of, n))
                        rs = {int(tt.table(d, sp, n, mode) != 0) for mode in "AB"}
                        r = rs.pop() if len(rs) == 1 else None
                except tt.TooBig:
                    raise Rejected()
                if r:
                    found = e
                    break
                unclear = unclear or r is None
            if found:
                break
        res.append("not-equiv" if found else None if unclear or not bounded else "equiv")
    want = "not-equiv" if "not-equiv" in res else None if None in res else "equiv"
    low = 0 if c.get("bare") else None
    text = "".join("c: %s %s %s\n" % (btext(p, low), r, btext(q, low)) for r, p, q in cs) + "".join(etext(f, True, low) + "\n" for f in fs)
    env.write("a.equiv", text)
    ls = ["parse_equiv a.equiv", "type_check"] + (["desugar"] if len(text) % 2 else []) + ["echo @@uflia", "check_equiv uflia%s --smt-max-time 3" % (" --strict" if c["strict"] else "")]
    judge(env, ls, text, [["uflia", c["strict"]]], [want])
    return {"nontrivial": want is not None and any(in_formula(f) for f in fs), "labels": ["symbolic%s:%s" % (" strict" if c["strict"] else "", want)] + (["mission time"] if has_m else [])}


CHECK = Check("P17", [
    Part("concrete", concrete, run_concrete, 700, 9000, "chains of formulas obtained from each other by valid equivalences, some with a small change, under all encodings"),
    Part("files", concrete, run_files, 200, 4000, "the problems that write_equiv_smt_encoding writes, solved separately"),
    Part("symbolic", symbolic, run_symbolic, 1300, 12000, ".equiv files with symbolic interval bounds, constraints and mission time"),
], rule="non-trivial: the expected answer is known and a formula has a temporal operator (symbolic: with a symbolic bound); distinct by the whole case",
    assumptions=["z3 answers correctly", "'unknown' and time-outs are accepted answers"])

if __name__ == "__main__":
    main(CHECK)
