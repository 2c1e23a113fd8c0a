"""Reference model of the booleanizer: typed expressions over int/float/bool signals.

Expressions are lists: ["sig", name] ["k", int] ["kf", float] ["kb", bool] ["tau"]
int:   ["+"|"-"|"*", a, b]  ["/"|"%", a, b]  ["pow", a, b]  ["neg"|"abs"|"~", a]  ["&"|"|"|"^", a, b]
float: ["+"|"-"|"*"|"/", a, b]  ["pow", a, b]  ["neg"|"abs"|"sqrt", a]
bool:  ["=="|"!="|"<"|"<="|">"|">=", a, b]
any:   ["prev", const, e]  ["def", name, e]   (e given a name in a DEFINE section)
Semantics (docs: language.md, configuration.md): int is 32-bit with C division, float is double, float
(in)equality and <=, >= are up to EPS."""
import decimal
import math

from hypothesis import strategies as st

from core import Rejected

EPS = 0.00001
TYPES = {"p": "b", "q": "b", "i": "i", "j": "i", "k": "i", "x": "f", "y": "f"}
CMP = ["==", "!=", "<", "<=", ">", ">="]


class Undefined(Exception):
    """Overflow, division by zero, NaN: outside the documented domain."""


def typ(e, types=TYPES):
    op = e[0]
    if op == "sig":
        return types[e[1]]
    if op in ("k", "tau", "%", "&", "|", "^", "~"):
        return "i"
    if op in ("kf", "sqrt"):
        return "f"
    if op in ("kb", "cnt") or op in CMP:
        return "b"
    if op in ("prev", "def"):
        return typ(e[2], types)
    return typ(e[1], types)


def dec(v):
    """All digits of a float, without an exponent."""
    s = "{:f}".format(decimal.Decimal(repr(float(v) + 0)))
    return s if "." in s else s + ".0"


def num(e):
    """A literal."""
    if e[0] == "k":
        return str(e[1]) if e[1] >= 0 else "-%d" % -e[1]
    if e[0] == "kf":
        return dec(e[1])
    return "true" if e[1] else "false"


def text(e):
    op = e[0]
    if op in ("sig", "def"):
        return e[1]
    if op in ("k", "kf", "kb"):
        s = num(e)
        return "(%s)" % s if s[0] == "-" else s
    if op == "tau":
        return "TAU"
    if op == "prev":
        return "prev(%s, %s)" % (num(e[1]), text(e[2]))
    if op == "neg":
        return "(-%s)" % text(e[1])
    if op == "~":
        return "(~%s)" % text(e[1])
    if op in ("abs", "sqrt"):
        return "%s(%s)" % (op, text(e[1]))
    return "(%s %s %s)" % (text(e[1]), op, text(e[2]))


def defines(es):
    """DEFINE section for the named subexpressions, innermost first."""
    out = []

    def go(e):
        for c in e[1:]:
            if isinstance(c, list):
                go(c)
        if e[0] == "def":
            out.append("  %s := %s;\n" % (e[1], text(e[2])))
    for e in es:
        go(e)
    return "DEFINE\n" + "".join(out) if out else ""


def rename_defs(es):
    """Number the definitions 0, 1, .. so that names are unique over the list."""
    n = [0]

    def go(e):
        if not isinstance(e, list):
            return e
        e = [e[0]] + [go(c) for c in e[1:]]
        if e[0] == "def":
            e[1] = "D%d" % n[0]
            n[0] += 1
        return e
    return [go(e) for e in es]


def i32(v):
    if not -2147483648 <= v <= 2147483647:
        raise Undefined()
    return v


def fin(v):
    if isinstance(v, complex) or math.isnan(v) or math.isinf(v):
        raise Undefined()
    return v


def cdiv(a, b):
    if b == 0:
        raise Undefined()
    q = abs(a) // abs(b)
    return i32(q if (a < 0) == (b < 0) else -q)


def ev(e, cols, t, types=TYPES):
    op = e[0]
    if op == "sig":
        return cols[e[1]][t]
    if op in ("k", "kf"):
        return e[1]
    if op == "kb":
        return int(e[1])
    if op == "tau":
        return t
    if op == "prev":
        return ev(e[1], cols, t, types) if t == 0 else ev(e[2], cols, t - 1, types)
    if op == "cnt":  # ["cnt", cmp, number, operands]: how many operands hold
        c = sum(ev(x, cols, t, types) for x in e[3])
        return int({"==": c == e[2], ">=": c >= e[2], "<=": c <= e[2]}[e[1]])
    if op == "def":
        return ev(e[2], cols, t, types)
    a = ev(e[1], cols, t, types)
    b = ev(e[2], cols, t, types) if len(e) > 2 else None
    if typ(e[1], types) in ("i", "b"):
        r = {"+": lambda: i32(a + b), "-": lambda: i32(a - b), "*": lambda: i32(a * b), "/": lambda: cdiv(a, b),
             "%": lambda: i32(a - b * cdiv(a, b)), "neg": lambda: i32(-a), "abs": lambda: i32(abs(a)), "~": lambda: ~a,
             "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "pow": lambda: ipow(a, b),
             "==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), "<=": lambda: int(a <= b),
             ">": lambda: int(a > b), ">=": lambda: int(a >= b)}
        return r[op]()
    eq = lambda: (a - b < EPS) if a > b else (b - a < EPS)
    r = {"+": lambda: fin(a + b), "-": lambda: fin(a - b), "*": lambda: fin(a * b), "/": lambda: fdiv(a, b),
         "neg": lambda: -a, "abs": lambda: abs(a), "sqrt": lambda: fsqrt(a), "pow": lambda: fpow(a, b),
         "==": lambda: int(eq()), "!=": lambda: int(not eq()), "<": lambda: int(a < b), ">": lambda: int(a > b),
         "<=": lambda: int(a < b + EPS), ">=": lambda: int(a > b - EPS)}
    return r[op]()


def ipow(a, b):
    if b < 0 or b > 40:
        raise Undefined()
    return i32(a ** b)


def fdiv(a, b):
    if b == 0:
        raise Undefined()
    return fin(a / b)


def fsqrt(a):
    if a < 0:
        raise Undefined()
    return math.sqrt(a)


def fpow(a, b):
    try:
        return fin(math.pow(a, b))
    except (ValueError, OverflowError):
        raise Undefined()


def avoid_eq_false(e):
    """`b == false` is rewritten to `b` (known finding P06): use `b != false` instead."""
    if not isinstance(e, list) or e[0] in ("k", "kf", "kb", "sig", "tau"):
        return e
    e = [e[0]] + [avoid_eq_false(c) for c in e[1:]]
    def strip(c):
        return strip(c[2]) if c[0] == "def" else c
    if e[0] == "==" and ["kb", False] in map(strip, e[1:]) and not all(strip(c)[0] == "kb" for c in e[1:]):
        e[0] = "!="
    return e


def column(e, cols, n, types=TYPES):
    def all_defined(e):  # the operand of prev is computed at the last step too
        for c in e:
            if isinstance(c, list):
                all_defined(c)
        if e and e[0] == "prev" and n:
            ev(e[2], cols, n - 1, types)
    try:
        all_defined(e)
        return [int(ev(e, cols, t, types)) for t in range(n)]
    except Undefined:
        raise Rejected()


def spell(v, ty, k):
    """One of the ways to write a number."""
    s = dec(v) if ty == "f" else "%d" % v
    if ty == "b" or k == 0:
        return s
    sign, digits = ("-", s[1:]) if s[0] == "-" else ("", s)
    if k == 1:
        return (sign or "+") + digits
    if k == 2:
        return sign + "0" + digits
    if k == 3:
        return sign + "00" + digits
    return s + "00" if ty == "f" else s


def csv(cols, order, types, n, header=True, style=0):
    """style: 0, or a number that chooses how each number is written."""
    out = ["#" + ",".join(order)] if header else []
    for t in range(n):
        out.append(",".join(spell(cols[s][t], types[s], (style * (3 * t + 7 * i + 1)) % 5) for i, s in enumerate(order)))
    return "\n".join(out) + "\n"


def decls(types=TYPES):
    names = {"b": "bool", "i": "int", "f": "float"}
    return "INPUT\n" + "".join("  %s: %s;\n" % (s, names[t]) for s, t in types.items())


# ---------------------------------------------------------------- generation

small = st.integers(-6, 6)
ints = st.one_of(small, small, small, st.integers(-1000, 1000), st.sampled_from([2147483647, -2147483647, 65535, 65536, -65536, 1 << 24, 255, 256]))
iconsts = st.one_of(small, small, st.integers(-300, 300), st.sampled_from([2147483647, -2147483647, 65536, 128, 255]))
quart = st.integers(-24, 24).map(lambda v: v / 4)
floats = st.one_of(quart, quart, st.tuples(quart, st.sampled_from([0.000001, -0.000001, 0.0001, -0.0001])).map(lambda p: round(p[0] + p[1], 6)),
                   st.sampled_from([0.1, 0.3, -0.7, 1000000.5, 123.456]),
                   st.sampled_from([1 / 3, -2 / 3, 0.0000012345678, 123456.78901234, 1e-9, 16777217.0, -98765432.125]))


@st.composite
def expr(draw, ty, d=3, prev=True, types=TYPES, tau=True):
    sigs = [s for s, t in types.items() if t == ty]
    memory = prev

    def leaf(ty):
        ss = [s for s, t in types.items() if t == ty]
        k = draw(st.integers(0, 9))
        if ty == "i" and tau and k == 9:
            return ["tau"]
        if k >= 6 or not ss:
            return {"i": lambda: ["k", draw(iconsts)], "f": lambda: ["kf", draw(floats)], "b": lambda: ["kb", draw(st.booleans())]}[ty]()
        return ["sig", draw(st.sampled_from(ss))]

    def const(ty):
        return {"i": lambda: ["k", draw(iconsts)], "f": lambda: ["kf", draw(floats)], "b": lambda: ["kb", draw(st.booleans())]}[ty]()

    def go(ty, d, prev):
        if d <= 0:
            return leaf(ty)
        k = draw(st.integers(0, 19))
        if k < 4 and ty != "b":
            return leaf(ty)
        if k == 18 and d > 1:
            return ["def", "D", go(ty, d - 1, memory)]
        if k == 4 and prev:
            return ["prev", const(ty), go(ty, d - 1, False)]
        if ty == "b":
            if k in (5, 6):
                return [draw(st.sampled_from(["==", "!="])), go("b", d - 1, prev), go("b", d - 1, prev)]
            if k == 7 and sigs:
                return ["sig", draw(st.sampled_from(sigs))]
            t = draw(st.sampled_from(["i", "i", "f"]))
            return [draw(st.sampled_from(CMP)), go(t, d - 1, prev), go(t, d - 1, prev)]
        if ty == "i":
            op = draw(st.sampled_from(["+", "-", "*", "/", "%", "neg", "abs", "~", "&", "|", "^", "pow", "+", "-"]))
            if op in ("/", "%") and draw(st.integers(0, 3)):
                return [op, go("i", d - 1, prev), ["k", draw(st.integers(-7, 7).filter(bool))]]
            if op == "pow":
                return [op, go("i", min(d - 1, 1), prev), ["k", draw(st.integers(0, 4))]]
        else:
            op = draw(st.sampled_from(["+", "-", "*", "/", "neg", "abs", "sqrt", "pow", "+", "-"]))
            if op == "/" and draw(st.integers(0, 3)):
                return [op, go("f", d - 1, prev), ["kf", draw(quart.filter(bool))]]
            if op == "pow":
                return [op, go("f", min(d - 1, 1), prev), ["kf", draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 3.0, -1.0]))]]
            if op == "sqrt":
                return [op, ["abs", go("f", d - 1, prev)]]
        if op in ("neg", "abs", "~"):
            return [op, go(ty, d - 1, prev)]
        return [op, go(ty, d - 1, prev), go(ty, d - 1, prev)]

    return go(ty, draw(st.integers(1, d)), prev)


@st.composite
def trace(draw, types=TYPES, min_n=1, max_n=16):
    n = draw(st.integers(min_n, max_n))
    cols = {}
    for s, t in types.items():
        if t == "b":
            cols[s] = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
        else:
            # a small pool makes equalities and repeats likely
            pool = draw(st.lists(ints if t == "i" else floats, min_size=1, max_size=4))
            cols[s] = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n))
    return {"n": n, "cols": cols, "style": draw(st.sampled_from([0, 0, 1, 2, 3]))}
