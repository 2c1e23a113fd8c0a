"""Hypothesis strategies for formulas, traces and specifications."""
from hypothesis import strategies as st

import logic


def intervals(max_ub=8, big=0):
    @st.composite
    def iv(draw):
        k = draw(st.integers(0, 9))
        if k == 0:
            a = draw(st.integers(0, max_ub))
            return a, a
        if k == 1:
            return 0, draw(st.integers(0, max_ub))
        if k == 2 and big:
            a = draw(st.integers(0, big))
            return a, draw(st.integers(a, big))
        a = draw(st.integers(0, max_ub))
        b = draw(st.integers(a, max_ub))
        return a, b
    return iv()


@st.composite
def formula(draw, names, ops, max_depth=4, max_ub=8, consts=True, big=0, multi=True, root=False):
    """Depth-driven construction; ops is a subset of the operator alphabet."""
    def leaf():
        if consts and draw(st.integers(0, 11)) == 0:
            return [draw(st.sampled_from(["t", "f"]))]
        return ["a", draw(st.sampled_from(names))]

    def go(d, top=False):
        if d <= 0 or not top and draw(st.integers(0, 9)) == 0:
            return leaf()
        op = draw(st.sampled_from(ops))
        if op == "!":
            return ["!", go(d - 1)]
        if op in ("&", "|"):
            n = 2
            if multi and draw(st.integers(0, 4)) == 0:
                n = draw(st.integers(3, 4))
                if draw(st.integers(0, 3)) == 0:
                    n = draw(st.integers(5, 8))
            return [op] + [go(d - 1 if n < 5 else min(d - 1, 1)) for _ in range(n)]
        if op in ("->", "<->", "xor"):
            return [op, go(d - 1), go(d - 1)]
        lb, ub = draw(intervals(max_ub, big))
        if op in logic.UN_T:
            return [op, lb, ub, go(d - 1)]
        return [op, lb, ub, go(d - 1), go(d - 1)]

    tops = [o for o in ops if o in logic.UN_T or o in logic.BIN_T]
    if root and tops:
        lb, ub = draw(intervals(max_ub, big))
        op = draw(st.sampled_from(tops))
        d = draw(st.integers(0, max_depth - 1))
        return [op, lb, ub, go(d)] + ([go(d)] if op in logic.BIN_T else [])
    return go(draw(st.sampled_from([max_depth] + list(range(1, max_depth + 1)))), True)


FT_OPS = ["!", "&", "|", "->", "<->", "xor"] + ["G", "F", "U", "R"] * 3
PT_OPS = ["!", "&", "|", "->", "<->", "xor"] + ["H", "O", "S", "T"] * 3
# what C2PO leaves in place without rewriting anything away
BOOL_OPS = ["!", "&", "|", "->", "<->", "xor"]


@st.composite
def bool_column(draw, n):
    """Noise at several densities, and runs: even noise alone seldom fills or empties a long window."""
    if n == 0:
        return []
    mode = draw(st.integers(0, 11))
    full = (1 << n) - 1
    if mode <= 6:
        a = draw(st.integers(0, full))
        if mode in (2, 3, 4):
            b = draw(st.integers(0, full))
            c = draw(st.integers(0, full))
            a = [a | b | c, a & b & c, a | b][mode - 2]
        elif mode == 5:
            a = a & draw(st.integers(0, full))
        return [(a >> i) & 1 for i in range(n)]
    v = draw(st.integers(0, 1))
    if mode <= 9:  # constant but for a few steps
        col = [v] * n
        for _ in range(draw(st.integers(1, 3) if mode == 9 else st.integers(0, 2))):
            col[draw(st.integers(0, n - 1))] = 1 - v
        return col
    col = []
    while len(col) < n:
        col += [v] * draw(st.integers(1, 9))
        v = 1 - v
    return col[:n]


@st.composite
def bool_trace(draw, names, min_n=0, max_n=24):
    n = draw(st.integers(min_n, max_n))
    return {"n": n, "cols": {s: draw(bool_column(n)) for s in names}}


@st.composite
def bool_traces(draw, names, min_n=0, max_n=24, count=3):
    return [draw(bool_trace(names, min_n, max_n)) for _ in range(count)]


SIGS = ["p", "q", "r", "s"]


def mutate(draw, phi, names, ops, max_ub=8):
    """Return a formula sharing structure with phi (to give CSE and rewriting work)."""
    subs = list(logic.walk(phi))
    sub = subs[draw(st.integers(0, len(subs) - 1))]
    k = draw(st.integers(0, 4))
    if k == 0:
        return sub
    if k == 1:
        return ["!", sub]
    other = draw(formula(names, ops, max_depth=2, max_ub=max_ub))
    tops = [o for o in ops if o in logic.UN_T or o in logic.BIN_T]
    if k == 2 and tops:
        op = draw(st.sampled_from(tops))
        lb, ub = draw(intervals(max_ub))
        return [op, lb, ub, sub] if op in logic.UN_T else [op, lb, ub, sub, other]
    op = draw(st.sampled_from(["&", "|"]))
    return [op, sub, other] if k == 3 else [op, other, sub]


@st.composite
def swarm(draw, ops):
    """All operators, or a few of them: combinations of particular operators get likely."""
    if draw(st.integers(0, 2)) == 0:
        return ops
    kinds = sorted(set(ops))
    some = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=4, unique=True))
    tops = [o for o in kinds if o in logic.UN_T or o in logic.BIN_T]
    if tops and not set(some) & set(tops) and draw(st.integers(0, 2)):
        some.append(draw(st.sampled_from(tops)))
    return some


@st.composite
def formulas(draw, names, ops, max_formulas=3, max_depth=4, max_ub=8, consts=True, big=0):
    if draw(st.integers(0, 2)) == 0:
        max_formulas = 1 + (max_formulas - 1) // 3
    ops = draw(swarm(ops))
    if draw(st.integers(0, 3)) == 0:
        names = names[:1 + draw(st.integers(0, 1))]
    out = [draw(formula(names, ops, max_depth, max_ub, consts, big, root=draw(st.integers(0, 3)) == 0))]
    for _ in range(draw(st.integers(0, max_formulas - 1))):
        if draw(st.booleans()):
            out.append(mutate(draw, out[draw(st.integers(0, len(out) - 1))], names, ops, max_ub))
        else:
            out.append(draw(formula(names, ops, max_depth, max_ub, consts, big)))
    return out


@st.composite
def wide(draw, names, kind, top=1 << 28):
    """A formula with bounds of any size that still needs small queues: in the future-time fragment, operators of one
    level share a large offset, so that operands get decided at nearly the same time. -> (formula, offsets)"""
    offs = []

    def offset():
        k = draw(st.sampled_from([3, 9, 12, 16, 17, 20, 24, 28, 30]))
        offs.append(min(top, draw(st.sampled_from([(1 << k) - 1, 1 << k, draw(st.integers(0, 1 << k))]))))
        return offs[-1]

    def interval(base):
        a = draw(st.integers(0, 4))
        return base + a, base + a + draw(st.integers(0, 4))

    def free():
        a, b = sorted([draw(st.sampled_from([0, 1, 2, offset()])), offset()])
        return a, b

    def level(k, d):
        if k == 0 or d > 0 and draw(st.integers(0, 2)) == 0:
            op = draw(st.sampled_from(["!", "&", "|", "->", "<->", "xor"])) if d > 0 else "a"
            if op == "a":
                return ["a", draw(st.sampled_from(names))]
            return [op] + [level(k, d - 1) for _ in range(1 if op == "!" else 2)]
        op = draw(st.sampled_from(logic.FUTURE if kind == "FT" else logic.PAST))
        lb, ub = interval(bases[k - 1] if kind == "FT" else 0)
        if op in "ST" and draw(st.booleans()):
            ub += offset()  # past-time operators are decided early, S and T by lb steps, H and O by ub steps
        return [op, lb, ub] + [level(k - 1, 1) for _ in range(1 if op in logic.UN_T else 2)]

    k = draw(st.integers(1, 3))
    bases = [offset() for _ in range(k)]
    f = level(draw(st.integers(1, k)), 2)
    for i in range(draw(st.integers(0, 2))):
        op = draw(st.sampled_from([o for o in (logic.FUTURE if kind == "FT" else logic.PAST) if i == 0 or o in logic.UN_T]))
        lb, ub = free()
        if op in "ST":
            lb = min(lb, draw(st.integers(0, 4)))
        if op in logic.UN_T:
            f = [op, lb, ub, f]
        else:
            f = [op, lb, ub, f, ["!", f]] if draw(st.booleans()) else [op, lb, ub, ["!", f], f]
    return f, sorted(set(offs))
