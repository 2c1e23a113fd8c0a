"""Exhaustive satisfiability of MLTL formulas over finite traces.

The truth of a formula at a position is a bit vector with one bit per trace (a Python integer), so all
traces are evaluated at once.  A variable is a *group* of atoms at one time: a boolean input, or all the
atoms over integers together, whose jointly possible truth values are found by trying all small integers.

Semantics of positions: "full" is a trace of length n >= cplen in which nothing is past the end.  Two
readings of MLTL on shorter traces are offered; they differ in what holds past the end:
  A: an atom is false there; G/R hold, F/U do not, if their interval starts there
  B: intervals only range over the positions that exist
"""
import itertools
import logic

LIMIT = 1 << 20


class TooBig(Exception):
    pass


def cplen(phi):
    """Computation length: positions that matter (Elwing et al.)."""
    op, ch = phi[0], logic.children(phi)
    if op in ("G", "F"):
        return phi[2] + cplen(ch[0])
    if op in ("U", "R"):
        return phi[2] + max(cplen(ch[0]) - 1, cplen(ch[1]))
    return max([cplen(c) for c in ch], default=1)


class Space:
    """All traces of n positions over the groups' atoms; only the (group, time) pairs in used vary."""

    def __init__(self, groups, used):
        self.groups = groups  # group -> list of dicts atom -> 0/1: the possible joint values
        self.of = {a: g for g, vs in groups.items() for a in vs[0]}
        self.total = 1
        self.stride = {}
        for g, t in sorted(used, key=str):
            self.stride[g, t] = self.total
            self.total *= len(groups[g])
            if self.total > LIMIT:
                raise TooBig()
        self.ones = (1 << self.total) - 1
        self.memo = {}

    def atom(self, a, t):
        if (a, t) not in self.memo:
            g = self.of[a]
            s, vals = self.stride[g, t], self.groups[g]
            pat = 0
            for i, v in enumerate(vals):
                if v[a]:
                    pat |= ((1 << s) - 1) << (i * s)
            width = s * len(vals)
            while width < self.total:  # repeat the pattern
                pat |= pat << width
                width *= 2
            self.memo[a, t] = pat & self.ones
        return self.memo[a, t]


def used(phi, of, horizon, n=None):
    """The (group, time) pairs that phi at 0 reads."""
    res, seen = set(), set()

    def go(p, lo, hi):
        if (id(p), lo, hi) in seen:
            return
        seen.add((id(p), lo, hi))
        if p[0] == "a":
            res.update((of[p[1]], t) for t in range(lo, hi + 1) if t < horizon)
        elif p[0] in ("G", "F"):
            go(p[3], lo + p[1], hi + p[2])
        elif p[0] in ("U", "R"):
            go(p[3], lo + p[1], hi + p[2] - 1)
            go(p[4], lo + p[1], hi + p[2])
        else:
            for c in logic.children(p):
                go(c, lo, hi)
    go(phi, 0, 0)
    return res


def table(phi, sp, n, mode, free=()):
    """The set of traces (as bits) of length n on which phi holds at 0."""
    memo = {}
    ones = sp.ones

    def at(p, k):
        key = (id(p), k)
        if key in memo:
            return memo[key]
        op = p[0]
        if op == "a":
            r = sp.atom(p[1], k) if k < n or p[1] in free else 0
        elif op == "t":
            r = ones
        elif op == "f":
            r = 0
        elif op == "!":
            r = ones ^ at(p[1], k)
        elif op == "&":
            r = ones
            for c in p[1:]:
                r &= at(c, k)
        elif op == "|":
            r = 0
            for c in p[1:]:
                r |= at(c, k)
        elif op == "->":
            r = (ones ^ at(p[1], k)) | at(p[2], k)
        elif op == "<->":
            r = ones ^ at(p[1], k) ^ at(p[2], k)
        elif op == "xor":
            r = at(p[1], k) ^ at(p[2], k)
        else:
            lo, hi = k + p[1], k + p[2]
            if lo >= n:
                r = ones if op in ("G", "R") else 0
            else:
                if mode == "B":
                    hi = min(hi, n - 1)
                if op == "G":
                    r = ones
                    for i in range(lo, hi + 1):
                        r &= at(p[3], i)
                elif op == "F":
                    r = 0
                    for i in range(lo, hi + 1):
                        r |= at(p[3], i)
                elif op == "U":
                    r, before = 0, ones
                    for i in range(lo, hi + 1):
                        r |= at(p[4], i) & before
                        if i < hi:
                            before &= at(p[3], i)
                else:
                    r, before = ones, 0
                    for i in range(lo, hi + 1):
                        r &= at(p[4], i) | before
                        if i < hi:
                            before |= at(p[3], i)
        memo[key] = r
        return r
    return at(phi, 0)


def bool_groups(names):
    return {n: [{n: 0}, {n: 1}] for n in names}


def satisfiable(phi, groups):
    """Does a trace of length cplen(phi) satisfy phi?"""
    n = cplen(phi)
    of = {a: g for g, vs in groups.items() for a in vs[0]}
    return table(phi, Space(groups, used(phi, of, n)), n, "B") != 0


def satisfiable_any(phi, groups, free=()):
    """Does a trace of some length satisfy phi?  -> 1, 0, or None where the readings A and B differ
    or the empty trace matters, or what the atoms in free are past the end."""
    n = cplen(phi)
    of = {a: g for g, vs in groups.items() for a in vs[0]}
    sp = Space(groups, used(phi, of, n))
    res = {m: int(any(table(phi, sp, k, m) for k in range(1, n + 1))) for m in "AB"}
    if len(set(res.values())) > 1 or (not res["A"] and table(phi, sp, 0, "A")):
        return None
    if free and not res["A"] and any(table(phi, sp, k, "A", free) for k in range(n + 1)):
        return None
    return res["A"]


def int_group(exprs, lo=-20, hi=20, n=2):
    """exprs: atom -> function of n ints, returning None where undefined. The possible joint truth values."""
    rows, seen = [], set()
    for v in itertools.product(range(lo, hi + 1), repeat=n):
        row = {a: int(f(*v)) for a, f in exprs.items()}
        k = tuple(sorted(row.items()))
        if k not in seen:
            seen.add(k)
            rows.append(row)
    return rows
