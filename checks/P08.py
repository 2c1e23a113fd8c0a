import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import re
import e2e, logic, rich
from hypothesis import strategies as st

_txt = rich.txt


def txt(e):
    if e[0] == "raw":
        return e[1]
    if e[0] == "agg" and isinstance(e[5], str):
        return _txt(e[:5] + [0]).replace(", 0)(", ", %s)(" % e[5], 1) if e[1] in rich.CNT else _txt(e[:5] + [0])
    return _txt(e)


rich.txt = txt  # the mutated trees contain raw text


def cls(t):
    """The class of types between which the language converts nothing."""
    if t[0] == "arr":
        return "arr"
    if t[0] in ("st", "e"):
        return t[0] + ":" + t[1]
    return {"b": "bool", "l": "bool", "i": "int", "f": "float"}[t]


class Typer:
    def __init__(self, case):
        self.sigs = {n: t for n, t in case["sigs"]}
        self.defs = {n: t for n, t, _ in case["defs"]}
        self.structs = {s: {m: t for m, t in ms} for s, ms in case["structs"]}
        self.enum_of = {m: e for e, ms in case["enums"] for m, _ in ms}

    def ty(self, e, env):
        op = e[0]
        if op in ("sig", "asig"):
            return self.sigs[e[1]]
        if op in ("k", "kf", "kb"):
            return {"k": "i", "kf": "f", "kb": "b"}[op]
        if op == "ek":
            return ["e", self.enum_of[e[1]]]
        if op == "op":
            return "b" if e[1] in ("==", "!=", "<", ">", "<=", ">=") else self.ty(e[2], env)
        if op == "prev":
            return self.ty(e[2], env)
        if op in ("B", "L", "T", "agg", "acmp"):
            return "l"
        if op in ("idx", "slice"):
            t = self.ty(e[1], env)
            return t[1] if op == "idx" else ["arr", t[1], e[3] - e[2] + 1]
        if op == "lit":
            return ["arr", self.ty(e[1][0], env), len(e[1])]
        if op == "mem":
            return self.structs[self.ty(e[1], env)[1]][e[2]]
        if op == "mk":
            return ["st", e[1]]
        if op == "ref":
            return self.defs.get(e[1], "l")
        if op == "bv":
            return env[e[1]]
        raise ValueError(e)

    def walk(self, e, env, want, prev, out, path):
        """Places (path, tree, class the place needs or None, environment, inside prev)."""
        out.append((path, e, want, dict(env), prev))
        op = e[0]

        def go(i, w, env2=None, p2=None):
            self.walk(get(e, i), env2 if env2 is not None else env, w, prev if p2 is None else p2, out, path + list(i))
        if op == "op":
            a = [self.ty(x, env) for x in e[2:]]
            for i in range(len(a)):
                strict = len(a) == 2 and not any(x[0] == "ek" for x in e[2:])
                go([2 + i], cls(a[1 - i]) if strict else None)
        elif op == "prev":
            go([2], cls(self.ty(e[1], env)) if e[1][0] != "ek" else None, None, True)
        elif op == "B":
            go([1], want)
        elif op in ("L", "T"):
            for i in range(2 if op == "L" else 4, len(e)):
                go([i], "bool")
        elif op == "agg":
            go([3], "array")
            env2 = dict(env)
            env2[e[2]] = self.ty(e[3], env)[1]
            go([4], "bool", env2)
        elif op == "acmp":
            go([2], "acmp")
            go([3], "acmp")
        elif op in ("idx", "slice"):
            go([1], "array")
        elif op == "lit":
            for i, x in enumerate(e[1]):
                go([1, i], cls(self.ty(x, env)) if len(e[1]) > 1 else None)
        elif op == "mem":
            go([1], "struct")
        elif op == "mk":
            for i, x in enumerate(e[2]):
                go([2, i], cls(self.ty(x, env)))
        elif op == "contract":
            go([1], "bool")
            go([2], "bool")


def get(e, path):
    for i in path:
        e = e[i]
    return e


def put(e, path, new):
    if not path:
        return new
    e = dict(e) if isinstance(e, dict) else list(e)
    e[path[0]] = put(e[path[0]], path[1:], new)
    return e


def roots(case):
    """(where, tree) of all definitions and specifications"""
    out = [(["defs", i, 2], d[2]) for i, d in enumerate(case["defs"])]
    out += [(["fs", i, 1], f[1]) for i, f in enumerate(case["fs"])]
    for j, (_, items) in enumerate(case.get("more", [])):
        out += [(["more", j, 1, i, 1], f[1]) for i, f in enumerate(items)]
    return out


def kind_of(case, where):
    return case["kind"] if where[0] == "fs" else case["more"][where[1]][0]


def fillers(case):
    """class -> texts of expressions that need nothing but the inputs"""
    out = {"bool": ["p", "q", "BA[0]", "(p && q)", "true", "!p"], "arr": ["BA", "{p, q}", "BA[0..0]"]}
    if case["bz"]:
        out["int"] = ["i", "7", "IA[0]", "(i + j)", "abs(j)", "prev(3, i)"]
        out["float"] = ["x", "2.5", "FA[0]", "(x * x)", "abs(x)"]
        out["bool"] += ["(i < j)", "(x >= 1.5)"]
        out["arr"] += ["IA", "{x, x}"]
        for n, _ in case["enums"]:
            out["e:" + n] = ["e"]
    simple = {"b": "q", "l": "(p || q)", "i": "j", "f": "x"}
    full = {}

    def make(t):
        if t[0] == "arr":
            return "{%s}" % ", ".join([make(t[1])] * (t[2] or 2))
        if t[0] == "st":
            return full[t[1]]
        return simple[t]
    for s, ms in case["structs"]:
        full[s] = "%s(%s)" % (s, ", ".join(make(t) for _, t in ms))
        out["st:" + s] = [full[s]]
    return out


FT2PT = {"G": "H", "F": "O", "U": "S", "R": "T"}
PT2FT = {v: k for k, v in FT2PT.items()}


class Empty(Exception):
    pass


def edits(draw, case, want):
    """A mutation of kind `want` -> (name, mutated case or program text suffix)"""
    ty = Typer(case)
    places = []
    for where, e in roots(case):
        out = []
        ty.walk(e, {}, "bool" if where[0] != "defs" and e[0] != "contract" else None, False, out, [])
        places += [(where, *x) for x in out]
    fill = fillers(case)

    def pick(xs):
        if not xs:
            raise Empty()
        return draw(st.sampled_from(xs))
    at = lambda f: [x for x in places if f(x)]

    def rep(x, new):
        return put(case, x[0] + x[1], new)
    if want == "operand":
        c = at(lambda x: x[3] is not None)
        x = pick(c)
        need = x[3]
        if need == "array":
            ks = [k for k in fill if k != "arr"]
        elif need == "struct":
            ks = [k for k in fill if not k.startswith("st:")]
        elif need == "acmp":
            ks = [k for k in fill if k != "arr"]
        else:
            ks = [k for k in fill if k != need]
        k = pick(sorted(ks))
        texts = [t for t in fill[k] if not (x[5] and "prev" in t)]
        t = pick(texts)
        return "%s where %s is needed" % (k, need), rep(x, ["raw", t])
    if want == "unknown":
        x = pick(at(lambda x: x[2][0] in ("sig", "asig", "ref", "bv", "ek", "k", "kf")))
        return "unknown symbol", rep(x, ["raw", pick(["nosuch", "P", "p1", "En2", "BA0"])])
    if want == "index":
        x = pick(at(lambda x: x[2][0] in ("idx", "slice")))
        e = x[2]
        t = ty.ty(e[1], x[4])
        n = t[2]
        if n is None:
            # a member declared without a size, whose definition has one
            if e[1][0] != "asig":
                return "index", None
        if e[0] == "idx":
            return "index beyond the array", rep(x, e[:2] + [n + pick([0, 0, 1, 5])])
        return "slice beyond the array", rep(x, pick([["raw", "%s[%d..%d]" % (txt(e[1]), e[2], n + pick([0, 2]))], ["raw", "%s[%d..%d]" % (txt(e[1]), n, n)], ["raw", "%s[1..0]" % txt(e[1])]]))
    if want == "member":
        x = pick(at(lambda x: x[2][0] == "mem"))
        return "unknown member", rep(x, ["mem", x[2][1], pick(["m7", "nosuch", "p"])])
    if want == "signature":
        x = pick(at(lambda x: x[2][0] == "mk"))
        k = pick(["drop", "add", "name"])
        e = x[2]
        if k == "drop" and len(e[2]) > 1:
            return "instantiation with a member less", rep(x, [e[0], e[1], e[2][:-1]])
        if k == "add":
            return "instantiation with a member more", rep(x, [e[0], e[1], e[2] + [["raw", pick(["p", "true"])]]])
        return "unknown struct", rep(x, [e[0], "S9", e[2]])
    if want == "interval":
        x = pick(at(lambda x: x[2][0] == "T"))
        e = x[2]
        return "lower bound above the upper", rep(x, e[:2] + [e[3] + pick([1, 1, 4])] + e[3:])
    if want == "tense":
        x = pick(at(lambda x: x[0][0] != "defs" and x[3] == "bool" and ty.ty(x[2], x[4]) == "l"))
        op = pick(sorted(PT2FT) if kind_of(case, x[0]) == "FT" else sorted(FT2PT))
        d = draw(st.booleans())
        if op in "GFHO":
            f = ["raw", "(%s[0,2] %s)" % (op, pick(["p", "(p && q)"]))]
        else:
            f = ["raw", "(p %s[0,2] q)" % op]
        new = rep(x, f)
        if d:  # behind a definition
            new = rep(x, ["raw", "dt"])
            new["defs"] = new["defs"] + [["dt", "l", f]]
        return "operator of the other tense", new
    if want == "contract":
        cs = [lab for w, e in roots(case) for lab in [get(case, w[:-1])[0]] if e[0] == "contract"]
        if not cs:
            return "contract", None
        c = pick(cs)
        new = dict(case)
        new["more"] = case.get("more", []) + [[case["kind"], [[None, ["raw", pick(["%s", "!(%s)", "(p && %s)"]) % c]]]]]
        return "contract as operand", new
    if want == "wide":
        x = pick(at(lambda x: x[3] == "int"))
        return "constant too wide", rep(x, ["raw", pick(["2147483648", "4294967295", "99999999999999", "(i + 2147483648)"])])
    if want == "arith":
        x = pick(at(lambda x: x[3] in ("int", "float")))
        if x[3] == "int":
            return "arithmetic", rep(x, ["raw", pick(["(i / 0)", "sqrt(i)", "(i pow -2)", "(i % 2.5)", "(i & 2.5)", "(2.5 | i)", "(x ^ i)", "~(x)", "(IA + IA)", "(j * (i / 0))"])])
        return "arithmetic", rep(x, ["raw", pick(["(x / i)", "(x & x)", "~(x)", "(x | FA[0])", "(2 + x)", "(x ^ 1.5)", "(x pow 2)", "sqrt(4)", "(FA * FA)"])])
    if want == "prev":
        x = pick(at(lambda x: x[3] in ("int", "float", "bool") and not x[5] and (x[3] != "bool" or ty.ty(x[2], x[4]) == "b")))
        t = {"int": ["prev(i, j)", "prev(2.5, i)", "prev(true, i)", "prev(1, prev(2, i))", "prev(1, (i + prev(2, j)))", "prev(i + 1, i)"],
             "float": ["prev(x, x)", "prev(1, x)", "prev(0.5, prev(1.5, x))", "prev(true, x)"],
             "bool": ["prev(p, q)", "prev(1, p)", "prev(true, prev(false, p))", "prev(true, (i < prev(1, j)))"]}[x[3]]
        return "prev", rep(x, ["raw", pick(t)])
    if want == "size":
        c = []
        for x in at(lambda x: x[2][0] == "acmp"):
            a, b = [ty.ty(t, x[4]) for t in x[2][2:]]
            if a[2] is not None and b[2] is not None:
                c.append((x, 2, a))
                c.append((x, 3, b))
        for x in at(lambda x: x[2][0] == "mk"):
            for i, t in enumerate(ty.structs[x[2][1]].values()):
                if t[0] == "arr" and t[2] is not None:
                    c.append((x, (2, i), t))
        x, i, t = pick(c)
        lit = ["raw", "{%s}" % ", ".join([fill[cls(t[1])][0]] * (t[2] + pick([1, 1, 2] + [-1] * (t[2] > 1))))]
        return "array of another size", rep(x, put(x[2], list(i) if isinstance(i, tuple) else [i], lit))
    if want == "enum":
        if not case["enums"]:
            return "enum", None
        x = pick(at(lambda x: x[3] == "bool"))
        ms = [m for m, _ in case["enums"][0][1]]
        new = rep(x, ["raw", pick(["(e == Zb)", "(Zb != e)", "(%s == %s)" % (ms[0], ms[1]), "(e == z)", "(e == 1)", "(0 == e)", "(e == En)", "(z == %s)" % ms[0], "(prev(Zb, e) == e)", "(e == 1.5)", "(p == e)"])])
        new["enums"] = case["enums"] + [["Ez", [["Za", 11], ["Zb", 12]]]]
        new["sigs"] = case["sigs"] + [["z", ["e", "Ez"]]]
        return "enums", new
    if want == "bound":
        c = at(lambda x: x[2][0] == "agg")
        if draw(st.booleans()) or not c:
            x = pick(at(lambda x: x[3] == "bool" and not x[4]))
            return "bound variable outside of its scope", rep(x, ["raw", pick(["k0", "(p && k9)", "(foreach(k9: BA)(k9) && k9)"])])
        x = pick(c)
        e = x[2]
        k = pick(["signal", "nested"])
        body = e[:4] + [e[4]] + e[5:]
        if k == "signal":
            return "bound variable named like an input", rep(x, ["raw", "%s(p: BA%s)(p)" % (e[1], ", 1" if e[1] in rich.CNT else "")])
        return "bound variable bound again", rep(x, ["raw", "%s(k9: BA%s)(foreach(k9: BA)(k9))" % (e[1], ", 1" if e[1] in rich.CNT else "")])
    if want == "number":
        x = pick(at(lambda x: x[2][0] == "agg" and x[2][1] in rich.CNT))
        return "number of an aggregation", rep(x, x[2][:5] + [pick(["1.5", "x", "FA[0]", "BA"])])
    if want == "duplicate":
        syms = [n for n, _ in case["sigs"]] + [n for n, _, _ in case["defs"]] + [s for s, _ in case["structs"]] + [n for n, _ in case["enums"]]
        labs = [get(case, w[:-1])[0] for w, e in roots(case) if w[0] != "defs" and get(case, w[:-1])[0]]
        s = pick(syms + labs)
        k = pick(["input", "define", "struct", "enum", "member", "spec", "contract"])
        text = {"input": "INPUT %s: bool;", "define": "DEFINE %s := p;", "struct": "STRUCT %s: { zz: bool; };", "enum": "ENUM %s: {Zq: 3, Zr: 4};", "member": "ENUM Ez: {%s: 3, Zr: 4};",
                "spec": case["kind"] + "SPEC %s: (p && q);", "contract": case["kind"] + "SPEC %s: p => q;"}[k] % s
        return "symbol used twice", {"case": case, "text": text}
    if want == "input":
        text = pick(["INPUT zz: S9;", "INPUT zz: bool[];", "INPUT zz: bool[2][2];", "INPUT zz: En9[2];"] + ["INPUT zz: %s;" % s for s, _ in case["structs"]] + ["INPUT zz: %s[2];" % s for s, _ in case["structs"]])
        return "type no input can have", {"case": case, "text": text}
    if want == "top":
        c = [w for w, e in roots(case) if w[0] != "defs"]
        w = pick(c)
        e = get(case, w)
        ks = sorted(k for k in fill if k != "bool")
        new = ["raw", pick(fill[pick(ks)])]
        if e[0] == "contract":
            e = e[:1] + ([new, e[2]] if draw(st.booleans()) else [e[1], new])
        else:
            e = new
        return "specification that is no bool", put(case, w, e)
    if want == "nobz":
        c = at(lambda x: x[2][0] == "prev" and x[0][0] != "defs" or x[2][0] == "op" and not (x[2][1] == "neg" and x[2][2][0] in ("k", "kf")) and (x[2][1] not in ("==", "!=") or cls(ty.ty(x[2][2], x[4])) != "bool") or x[2][0] == "agg" and x[2][1] in rich.CNT)
        if not case["bz"] or not c:
            return "booleanizer", None
        return "booleanizer operators without -bz", {"case": case, "text": "", "bz": False}
    raise ValueError(want)


KINDS = ["operand"] * 6 + ["unknown", "index", "index", "member", "signature", "interval", "tense", "contract", "wide", "arith", "arith", "prev", "enum", "bound", "number", "size", "size", "duplicate", "duplicate", "input", "top", "nobz"]


@st.composite
def cases(draw):
    case = draw(rich.cases(depth=draw(st.integers(1, 3)), more=True))
    k = draw(st.sampled_from(KINDS))
    case["flags"] = draw(st.sampled_from([[], [], ["--no-cse"], ["--no-rewrite"], ["--no-aux"], ["--mission-time", "20"]]))
    try:
        name, new = edits(draw, case, k)
    except Empty:
        name, new = k, None
    return {"case": case, "kind": k, "name": name, "new": new}


def run(env, case):
    c, new = case["case"], case["new"]
    if new is None:
        raise Rejected()
    el = rich.Elab(c)
    if max(logic.size(f) for _, f in el.formulas()[0]) > 300:
        raise Rejected()
    good = rich.program(c)
    bad_flags = ["-bz"] if c["bz"] else []
    if "text" in new:
        bad = rich.program(new["case"]) + new["text"] + "\n"
        if new.get("bz") is False:
            bad_flags = []
    else:
        bad = rich.program(new)
    assert bad != good or "bz" in new
    n, cols, order = c["trace"]["n"], c["trace"]["cols"], c["trace"]["order"]
    env.write("m.map", "".join("%s:%d\n" % (s, i) for i, s in enumerate(order + (["z"] if "z:" in bad else []))))
    env.write("good.c2po", good)
    env.write("bad.c2po", bad)
    r1 = env.c2po(["--spec", "good.c2po", "--map", "m.map", "-o", "good.bin"] + (["-bz"] if c["bz"] else []) + c["flags"])
    what = "\n--- accepted program (flags %s)\n%s" % (c["flags"], good)
    if r1.crashed or r1.timeout or r1.rc != 0 and "constant formula" not in r1.text:
        raise Violation("a well-typed program is refused%s%s" % (what, e2e.text_tail(r1.text)))
    r2 = env.c2po(["--spec", "bad.c2po", "--map", "m.map", "-o", "bad.bin"] + bad_flags + c["flags"])
    what = "%s\n--- program with the error\n%s" % (what, bad)
    if r2.crashed or r2.timeout:
        raise Violation("internal failure on an ill-typed program: %s%s%s" % (case["name"], what, e2e.text_tail(r2.text)))
    if r2.rc == 0 or os.path.exists(env.path("bad.bin")):
        raise Violation("not refused: %s%s%s" % (case["name"], what, e2e.text_tail(r2.text)))
    if "constant formula" in r2.text:
        raise Violation("refused only as constant: %s%s%s" % (case["name"], what, e2e.text_tail(r2.text)))
    if "rror" not in r2.text:
        raise Violation("refused without an error message: %s%s%s" % (case["name"], what, e2e.text_tail(r2.text)))
    if "bz" not in new:
        g, b = good.split("\n"), bad.split("\n")
        changed = {i + 1 for i in range(len(b)) if i >= len(g) or b[i] != g[i]} if len(g) == len(b) or "text" in new else set(range(1, len(b) + 1)) if len(b) < len(g) else {i + 1 for i in range(len(b)) if b[i] not in g}
        named = {int(x) for x in re.findall(r"error: bad\.c2po:(\d+):", r2.text)}
        if not named & changed:
            raise Violation("no message names line %s, where the error is: %s%s%s" % (sorted(changed), case["name"], what, e2e.text_tail(r2.text)))
    return {"nontrivial": r1.rc == 0, "labels": ["kind:" + case["kind"]]}


CHECK = Check("P08", [
    Part("types", cases, run, 2500, 40000, "a well-typed program, accepted, and the same with one violation of the typing rules, refused"),
], rule="non-trivial: the program without the error compiled; distinct by the whole case", assumptions=[])

if __name__ == "__main__":
    main(CHECK)
