"""The full C2PO language as typed JSON-able trees: text, elaboration to lib/bz + lib/logic, generators.

types:  "b" bool the booleanizer can compute (a signal without -bz)   "l" any Boolean formula   "i" "f"
        ["e", E] enum   ["arr", T, n]   ["st", S]
trees:  ["sig", name] ["asig", name, n]  ["k"|"kf", v]  ["ek", member, value]  ["op", op, a, ..]  ["prev", const, e]
        ["B", b]  (a "b" used as a formula)  ["L", op, a, ..]  ["T", op, lb, ub, a, ..]
        ["agg", kind, var, set, body, num]  ["acmp", op, A, B]  ["idx", A, i]  ["slice", A, lo, hi]  ["lit", [..]]
        ["mem", s, member]  ["mk", S, [args]]  ["ref", name]  ["bv", name]
"""
import json

from hypothesis import strategies as st

import bz
import logic

CNT = {"forexactly": "==", "foratleast": ">=", "foratmost": "<="}


def txt(e):
    op = e[0]
    if op in ("sig", "asig", "ref", "bv", "ek"):
        return e[1]
    if op in ("k", "kf", "kb"):
        return bz.text(e)
    if op == "op":
        a = [txt(x) for x in e[2:]]
        if e[1] == "neg":
            return "(-%s)" % a[0]
        if e[1] in ("abs", "sqrt"):
            return "%s(%s)" % (e[1], a[0])
        return "(%s %s %s)" % (a[0], e[1], a[1])
    if op == "prev":
        return "prev(%s, %s)" % (txt(e[1]) if e[1][0] == "ek" else bz.num(e[1]), txt(e[2]))
    if op == "B":
        return txt(e[1])
    if op == "contract":
        return "%s => %s" % (txt(e[1]), txt(e[2]))
    if op == "L":
        if e[1] == "!":
            return "!(%s)" % txt(e[2])
        return "(" + (" %s " % {"&": "&&", "|": "||"}.get(e[1], e[1])).join(txt(x) for x in e[2:]) + ")"
    if op == "T":
        if len(e) == 5:
            return "(%s[%d,%d](%s))" % (e[1], e[2], e[3], txt(e[4]))
        return "(%s %s[%d,%d] %s)" % (txt(e[4]), e[1], e[2], e[3], txt(e[5]))
    if op == "agg":
        return "%s(%s: %s%s)(%s)" % (e[1], e[2], txt(e[3]), ", %d" % e[5] if e[1] in CNT else "", txt(e[4]))
    if op == "acmp":
        return "(%s %s %s)" % (txt(e[2]), e[1], txt(e[3]))
    if op == "idx":
        return "%s[%d]" % (txt(e[1]), e[2])
    if op == "slice":
        return "%s[%d..%d]" % (txt(e[1]), e[2], e[3])
    if op == "lit":
        return "{%s}" % ", ".join(txt(x) for x in e[1])
    if op == "mem":
        return "%s.%s" % (txt(e[1]), e[2])
    if op == "mk":
        return "%s(%s)" % (e[1], ", ".join(txt(x) for x in e[2]))
    raise ValueError(e)


class Elab:
    """Elaborates trees; atoms: key -> bz expression."""

    def __init__(self, case):
        self.case = case
        self.atoms = {}
        self.names = {}
        self.members = {s: [m for m, _ in ms] for s, ms in case["structs"]}
        for name, _, e in case["defs"]:
            self.names[name] = ("d", e)
        for _, items in sections(case):
            for lab, e in items:
                if lab and e[0] != "contract":
                    self.names[lab] = ("d", e)

    def formulas(self):
        """The specification's formulas in order of their numbers -> ([(name or None, formula)], [(label, number of its first)])."""
        out, contracts = [], []
        for _, items in sections(self.case):
            for lab, e in items:
                if e[0] == "contract":
                    a, g = self.go(e[1]), self.go(e[2])
                    contracts.append((lab, len(out)))
                    out += [(None, a), (None, ["->", a, g]), (None, ["&", a, g])]
                else:
                    out.append((lab, self.go(e)))
        return out, contracts

    def atom(self, core):
        k = json.dumps(core)
        self.atoms[k] = core
        return ["a", k]

    def go(self, e, env=None):
        env = env or {}
        op = e[0]
        if op == "sig":
            return ["sig", e[1]]
        if op == "asig":
            return [["sig", "%s[%d]" % (e[1], i)] for i in range(e[2])]
        if op in ("k", "kf", "kb"):
            return e
        if op == "ek":
            return ["k", e[2]]
        if op == "op":
            return [e[1]] + [self.go(x, env) for x in e[2:]]
        if op == "prev":
            return ["prev", self.go(e[1]), self.go(e[2], env)]
        if op == "B":
            return self.atom(self.go(e[1], env))
        if op == "L":
            o = {"==": "<->", "!=": "xor"}.get(e[1], e[1])
            return [o] + [self.go(x, env) for x in e[2:]]
        if op == "T":
            return e[1:4] + [self.go(x, env) for x in e[4:]]
        if op == "agg":
            bodies = [self.go(e[4], {**env, e[2]: x}) for x in self.go(e[3], env)]
            if e[1] in CNT:
                return ["cnt", CNT[e[1]], e[5], bodies]
            return ["&" if e[1] == "foreach" else "|"] + bodies
        if op == "acmp":
            return ["&"] + [self.atom([e[1], a, b]) for a, b in zip(self.go(e[2], env), self.go(e[3], env))]
        if op == "idx":
            return self.go(e[1], env)[e[2]]
        if op == "slice":
            return self.go(e[1], env)[e[2]:e[3] + 1]
        if op == "lit":
            return [self.go(x, env) for x in e[1]]
        if op == "mem":
            return self.go(e[1], env)[e[2]]
        if op == "mk":
            return dict(zip(self.members[e[1]], [self.go(x, env) for x in e[2]]))
        if op == "ref":
            return self.go(self.names[e[1]][1])
        if op == "bv":
            return env[e[1]]
        raise ValueError(e)


def sig_types(case):
    """Scalar signal -> base type, array elements included, in declaration order."""
    out = {}
    for name, t in case["sigs"]:
        if t[0] == "arr":
            for i in range(t[2]):
                out["%s[%d]" % (name, i)] = t[1]
        else:
            out[name] = "i" if t[0] == "e" else t
    return out


def ty_text(t, unsized=False):
    if t[0] == "arr":
        return "%s[%s]" % (ty_text(t[1]), "" if t[2] is None else t[2])
    if t[0] in ("e", "st"):
        return t[1]
    return {"b": "bool", "l": "bool", "i": "int", "f": "float"}[t]


def sections(case):
    return [[case["kind"], case["fs"]]] + case.get("more", [])


def program(case, fs=None):
    out = []
    if case["enums"]:
        out.append("ENUM")
        for name, ms in case["enums"]:
            out.append("  %s: {%s};" % (name, ", ".join(m if v is None else "%s: %d" % (m, v) for m, v in ms)))
    if case["structs"]:
        out.append("STRUCT")
        for name, ms in case["structs"]:
            out.append("  %s: { %s };" % (name, " ".join("%s: %s;" % (m, ty_text(t)) for m, t in ms)))
    out.append("INPUT")
    for name, t in case["sigs"]:
        out.append("  %s: %s;" % (name, ty_text(t)))
    if case["defs"]:
        out.append("DEFINE")
        for name, _, e in case["defs"]:
            out.append("  %s := %s;" % (name, txt(e)))
    for kind, items in [[case["kind"], fs]] if fs else sections(case):
        out.append(kind + "SPEC")
        for lab, e in items:
            out.append("  %s%s;" % (lab + ": " if lab else "", txt(e)))
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- generation

RESERVED_CONST = st.integers(-5, 5)


class G:
    """Draws typed trees. scope: name -> type for definitions/labels; bound: bound variables."""

    def __init__(self, draw, bz_on, kind):
        self.draw, self.bz, self.kind = draw, bz_on, kind
        self.sigs, self.enums, self.structs, self.scope, self.bound = [], [], [], [], []
        self.nv = 0

    def pick(self, *xs):
        return self.draw(st.sampled_from(xs))

    def num(self, a, b):
        return self.draw(st.integers(a, b))

    def const(self):
        """A float literal"""
        return ["kf", self.num(-8, 8) / 2 if self.num(0, 7) else self.pick(0.00000012, -0.0000305, 1 / 3, 2.0 ** 60, -1e17, 123456.789)]

    def size(self, small):
        """A number of operands or elements, usually at most small."""
        return self.num(1, small) if self.num(0, 7) else self.num(4, 7)

    def sources(self, t, prev):
        """Named things of exactly type t."""
        out = []
        for name, ty in self.sigs:
            if ty == t:
                out.append(["asig", name, ty[2]] if t[0] == "arr" else ["sig", name])
        out += [["ref", n] for n, ty, hasprev in self.scope if ty == t and (prev or not hasprev)]
        out += [["bv", n] for n, ty in self.bound if ty == t]
        return out

    def arrays_of(self, t, prev):
        """Named arrays with elements of type t -> (tree, length)."""
        out = [(["asig", n, ty[2]], ty[2]) for n, ty in self.sigs if ty[0] == "arr" and ty[1] == t]
        out += [(["ref", n], ty[2]) for n, ty, hp in self.scope if ty[0] == "arr" and ty[1] == t and (prev or not hp)]
        out += [(["mem", s, m], ty[2]) for s, m, ty in self.members(prev) if ty[0] == "arr" and ty[1] == t]
        out += [(["bv", n], ty[2]) for n, ty in self.bound if ty[0] == "arr" and ty[1] == t]
        return out

    def members(self, prev):
        """(struct tree, member, actual type)"""
        out = []
        for name, ty, hp in self.scope:
            if ty[0] == "st" and (prev or not hp):
                out += [(["ref", name], m, t) for m, t in ty[2]]
        for name, ty in self.bound:
            if ty[0] == "st":
                out += [(["bv", name], m, t) for m, t in ty[2]]
        deep = []
        for s, m, t in out:
            if t[0] == "st":
                deep += [(["mem", s, m], m2, t2) for m2, t2 in t[2]]
        return out + deep

    def leaf(self, t, prev):
        c = self.sources(t, prev)
        c += [["idx", a, self.num(0, n - 1)] for a, n in self.arrays_of(t, prev)]
        c += [["mem", s, m] for s, m, ty in self.members(prev) if ty == t]
        if t == "i" and self.num(0, 4) == 0 or t == "i" and not c:
            return ["k", self.draw(RESERVED_CONST)]
        if t == "f" and (self.num(0, 4) == 0 or not c):
            return self.const()
        if t[0] == "e" and (self.num(0, 3) == 0 or not c):
            ms = self.enum_values(t[1])
            return ["ek"] + list(self.pick(*ms))
        if t == "l":
            c += [["B", x] for x in [self.leaf("b", prev)]] * max(1, len(c))
        return self.pick(*c)

    def enum_values(self, name):
        return [(m, i if v is None else v) for i, (m, v) in enumerate(dict(self.enums)[name])]

    def expr(self, t, d, prev=True):
        if t[0] == "arr":
            return self.array(t[1], t[2], d, prev)
        if t[0] == "st":
            return self.struct(t, d, prev)
        if t == "l":
            return self.formula(d, prev)
        k = self.num(0, 9)
        if d <= 0 or k < 3 or t[0] == "e":
            if t[0] == "e" and k == 0 and prev and self.bz:
                return ["prev", ["ek"] + list(self.pick(*self.enum_values(t[1]))), self.esig(t)]
            return self.leaf(t, prev)
        if t == "b":
            if not self.bz:
                return self.leaf(t, prev)
            if k == 3 and prev:
                return ["prev", ["kb", self.draw(st.booleans())], self.expr("b", d - 1, False)]
            if k in (4, 5):
                v, arr, elt = self.aggset(d, prev)
                if arr is not None:
                    self.bound.append((v, elt))
                    body = self.expr("b", d - 1, prev)
                    self.bound.pop()
                    return ["agg", self.pick("forexactly", "foratleast", "foratmost"), v, arr, body, self.num(0, 3)]
            o = self.pick("i", "i", "f", "b") if not self.enums else self.pick("i", "f", "b", ["e", self.enums[0][0]])
            if o[0] == "e":
                a, b = self.esig(o), self.expr(o, 0, prev)
                if self.num(0, 1):
                    a, b = b, a
                return ["op", self.pick("==", "!=", "==", "<", ">="), a, b]
            return ["op", self.pick("==", "!=") if o == "b" else self.pick(*bz.CMP), self.expr(o, d - 1, prev), self.expr(o, d - 1, prev)]
        if k == 3 and prev:
            c = ["k", self.draw(RESERVED_CONST)] if t == "i" else self.const()
            return ["prev", c, self.expr(t, d - 1, False)]
        op = self.pick("+", "-", "*", "neg", "abs")
        return ["op", op] + [self.expr(t, d - 1, prev) for _ in range(1 if op in ("neg", "abs") else 2)]

    def esig(self, t):
        return self.pick(*[["sig", n] for n, ty in self.sigs if ty == t])

    def aggset(self, d, prev):
        """A fresh bound variable with an array to range over."""
        elts = ["b", "l"] + (["i", "f"] if self.bz else []) + [ty for _, ty, _ in self.scope if ty[0] == "st"]
        t = self.pick(*elts)
        v = "k%d" % self.nv
        self.nv += 1
        return v, self.array(t, None, d - 1, prev), t

    def array(self, t, n, d, prev):
        cands = [(a, m) for a, m in self.arrays_of(t, prev) if n is None or m >= n]
        k = self.num(0, 5)
        if cands and k < 4 or (t[0] == "st" and cands):
            a, m = self.pick(*cands)
            if n is not None and m > n or k == 0:
                w = n if n is not None else self.num(1, m)
                lo = self.num(0, m - w)
                return ["slice", a, lo, lo + w - 1]
            return a
        n = n or self.size(3)
        return ["lit", [self.expr(t, min(d, 1), prev) for _ in range(n)]]

    def struct(self, t, d, prev):
        c = self.sources(t, prev) + [["mem", s, m] for s, m, ty in self.members(prev) if ty == t]
        if c and self.num(0, 2):
            return self.pick(*c)
        return ["mk", t[1], [self.expr(ty, min(d, 1), prev) for _, ty in t[2]]]

    def formula(self, d, prev=True):
        k = self.num(0, 19)
        if d <= 0 or k < 3:
            return self.leaf("l", prev) if k < 2 else ["B", self.expr("b", d, prev)]
        if k < 6:
            return ["B", self.expr("b", d - 1, prev)]
        if k < 9:
            v, arr, elt = self.aggset(d, prev)
            self.bound.append((v, elt))
            body = self.formula(d - 1, prev)
            self.bound.pop()
            return ["agg", self.pick("foreach", "forsome"), v, arr, body, 0]
        if k == 9 and self.bz:
            t = self.pick("i", "f", "b")
            a = self.array(t, None, d - 1, prev)
            n = self.alen(a)
            return ["acmp", self.pick("==", "!=") if t == "b" else self.pick(*bz.CMP), a, self.array(t, n, d - 1, prev)]
        if k in (10, 11):
            return ["L", "!", self.formula(d - 1, prev)]
        if k < 16:
            op = self.pick("&", "|", "->", "<->", "xor", "&", "|", "==", "!=")
            n = self.num(3, 7) if op in "&|" and self.num(0, 7) == 0 else 2
            return ["L", op] + [self.formula(d - 1 if n == 2 else min(d - 1, 1), prev) for _ in range(n)]
        lb = self.num(0, 2)
        ub = lb + self.num(0, 3)
        op = self.pick(*(["G", "F", "U", "R"] if self.kind == "FT" else ["H", "O", "S", "T"]))
        return ["T", op, lb, ub] + [self.formula(d - 1, prev) for _ in range(1 if op in logic.UN_T else 2)]

    def alen(self, a):
        if a[0] == "lit":
            return len(a[1])
        if a[0] == "slice":
            return a[3] - a[2] + 1
        if a[0] == "asig":
            return a[2]
        if a[0] == "ref":
            return [ty for n, ty, _ in self.scope if n == a[1]][0][2]
        if a[0] == "bv":
            return [ty for n, ty in self.bound if n == a[1]][0][2]
        return [ty for s, m, ty in self.members(True) if s == a[1] and m == a[2]][0][2]


def label(name, optional=True):
    """A name for a formula, sometimes as long as the compiler lets it be with auxiliary strings, or none."""
    def long(k):
        return name + ("_" + ("a_long_name_" * 5)[:k] if k else "")
    return st.tuples(st.integers(0, 1 if optional else 0), st.sampled_from([0, 0, 0, 5, 20, 29, 33] + [40] * optional)).map(lambda p: None if p[0] else long(p[1]))


def has_prev(e):
    if not isinstance(e, list):
        return False
    return bool(e) and e[0] == "prev" or any(has_prev(c) for c in e)


def add_sections(draw, g, case, depth):
    temporal = {}  # name -> the kinds of temporal operators behind it
    kinds = {o: "FT" for o in "GFUR"}
    kinds.update({o: "PT" for o in "HOST"})

    def note(name, e):
        ks = {kinds[o] for o in names_in(e, "T")}
        for r in names_in(e, "ref"):
            ks |= temporal.get(r, set())
        temporal[name] = ks
    for name, _, e in case["defs"]:
        note(name, e)
    for lab, e in case["fs"]:
        if lab:
            note(lab, e)
    nc = 0
    case["more"] = []
    scope = g.scope
    for si in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        kind = draw(st.sampled_from(["FT", "PT"]))
        g.kind = kind
        g.scope = [x for x in scope if temporal[x[0]] <= {kind}]
        items = []
        for _ in range(g.num(1, 3)):
            if g.num(0, 1):
                items.append([draw(label("c%d" % nc, False)), ["contract", g.formula(depth - 1), g.formula(depth - 1)]])
                nc += 1
            else:
                e = g.formula(depth)
                lab = draw(label("m%d%d" % (si, len(items))))
                items.append([lab, e])
                if lab:
                    note(lab, e)
                    x = (lab, "l", has_prev(e) or any(hp and n in names_in(e, "ref") for n, _, hp in g.scope))
                    g.scope.append(x)
                    scope.append(x)
        case["more"].append([kind, items])
    g.scope = scope


def names_in(e, tag):
    if not isinstance(e, list):
        return set()
    out = {e[1]} if e and e[0] == tag and isinstance(e[1], str) else set()
    for c in e:
        out |= names_in(c, tag)
    return out


@st.composite
def cases(draw, depth=3, more=False):
    """more: further sections of either kind, and contracts."""
    bz_on = draw(st.booleans())
    kind = draw(st.sampled_from(["FT", "PT"]))
    g = G(draw, bz_on, kind)
    case = {"bz": bz_on, "kind": kind, "enums": [], "structs": [], "defs": [], "fs": []}
    g.sigs = [["p", "b"], ["q", "b"], ["BA", ["arr", "b", g.size(3)]]]
    if bz_on:
        g.sigs += [["i", "i"], ["j", "i"], ["IA", ["arr", "i", g.size(3)]], ["x", "f"], ["FA", ["arr", "f", g.size(3)]]]
        if draw(st.booleans()):
            vals = draw(st.lists(st.integers(0, 9), min_size=3, max_size=3, unique=True)) if draw(st.booleans()) else [None] * 3
            case["enums"] = g.enums = [["En", [["Ea", vals[0]], ["Eb", vals[1]], ["Ec", vals[2]]]]]
            g.sigs += [["e", ["e", "En"]]]
    g.sigs = list(draw(st.permutations(g.sigs)))
    case["sigs"] = g.sigs
    # structs: declared member types, with the actual length of unsized arrays fixed per struct
    full = []
    for si in range(g.num(0, 2)):
        ms = []
        for mi in range(g.num(1, 3)):
            opts = ["l", "l", ["arr", "l", g.num(1, 3)]] + (["b", "i", "f", ["arr", "i", g.num(1, 3)], ["arr", "b", g.num(1, 3)]] if bz_on else [])
            opts += full
            ms.append(["m%d" % mi, draw(st.sampled_from(opts))])
        decl = []
        for m, t in ms:
            dt = t
            if t[0] == "arr" and draw(st.booleans()):
                dt = ["arr", t[1], None]
            if t[0] == "st":
                dt = t[:2]
            decl.append([m, dt])
        full.append(["st", "S%d" % si, ms])
        case["structs"].append(["S%d" % si, decl])
    nd = g.num(0, 3) + len(full)
    for di in range(nd):
        opts = ["l", "l", ["arr", "l", g.size(3)]] + (["b", "i", "f", ["arr", "i", g.size(3)]] if bz_on else ["b"])
        opts += full * 3 + [["arr", f, g.num(1, 2)] for f in full if any(ty == f for _, ty, _ in g.scope)]
        t = full[di] if di < len(full) else draw(st.sampled_from(opts))
        e = g.struct(t, 1, True) if t[0] == "st" else g.expr(t, draw(st.integers(0, 2)))
        name = "d%d" % di
        case["defs"].append([name, t, e])
        g.scope.append((name, t, has_prev(e) or any(hp and json.dumps(["ref", n]) in json.dumps(e) for n, _, hp in g.scope)))
    for fi in range(g.num(1, 3)):
        e = g.formula(depth)
        lab = draw(label("lab%d" % fi))
        case["fs"].append([lab, e])
        if lab:
            g.scope.append((lab, "l", has_prev(e) or any(hp and json.dumps(["ref", n]) in json.dumps(e) for n, _, hp in g.scope)))
    if more:
        add_sections(draw, g, case, depth)
    n = draw(st.integers(1, 12))
    cols = {}
    for s, t in sig_types(case).items():
        if t == "b":
            cols[s] = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
        elif s == "e":
            cols[s] = draw(st.lists(st.sampled_from([v for _, v in g.enum_values("En")]), min_size=n, max_size=n))
        elif t == "i":
            cols[s] = draw(st.lists(st.integers(-4, 4), min_size=n, max_size=n))
        else:
            cols[s] = draw(st.lists(st.integers(-4, 4).map(lambda v: v / 2), min_size=n, max_size=n))
    case["trace"] = {"n": n, "cols": cols, "order": list(draw(st.permutations(list(cols)))), "style": draw(st.sampled_from([0, 0, 0, 1, 2]))}
    return case
