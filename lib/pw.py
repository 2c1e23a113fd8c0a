"""The reference semantics once more, on piecewise constant inputs: a truth vector over all times 0, 1, .. is the
sorted list of the half-open intervals on which it holds, so bounds and distances of any size cost the same.
Shares no algorithm with logic.evaluate (the two are compared in P15)."""
import bisect

INF = float("inf")


def union(xs):
    out = []
    for s, e in sorted(xs):
        s = max(s, 0)
        if s >= e:
            continue
        if out and s <= out[-1][1]:
            out[-1][1] = max(out[-1][1], e)
        else:
            out.append([s, e])
    return out


def complement(xs):
    out, at = [], 0
    for s, e in xs:
        if at < s:
            out.append([at, s])
        at = e
    if at < INF:
        out.append([at, INF])
    return out


def meet(a, b):
    return complement(union(complement(a) + complement(b)))


def true_at(xs, t):
    return any(s <= t < e for s, e in xs)


def until(lb, ub, psi, xi):
    """t: some k in [t+lb, t+ub] has xi, and psi holds on [t+lb, k)"""
    out, starts = [], [r for r, _ in psi]
    for s, e in xi:
        out.append([s - lb, e - lb])  # xi already at t+lb
        k = bisect.bisect_left(starts, s) - 1
        if k >= 0 and s <= psi[k][1]:  # else wait for s, psi holding from t+lb to s-1
            out.append([max(psi[k][0], s - (ub - lb)) - lb, s - lb])
    return union(out)


def since(lb, ub, psi, xi):
    """t: some k in [max(0,t-ub), t-lb] has xi, and psi holds on (k, t-lb]"""
    out, starts = [], [r for r, _ in psi]
    for s, e in xi:
        out.append([s + lb, e + lb])
        k = bisect.bisect_right(starts, e) - 1
        if k >= 0 and e < psi[k][1]:  # k = e-1, psi on [e, t-lb]
            out.append([e + lb, min(psi[k][1], e + ub - lb) + lb])
    return union(out)


def evaluate(phi, env, memo=None):
    """env: atom -> intervals on which it holds"""
    memo = {} if memo is None else memo
    if id(phi) not in memo:
        memo[id(phi)] = _evaluate(phi, env, lambda p: evaluate(p, env, memo))
    return memo[id(phi)]


def _evaluate(phi, env, go):
    op = phi[0]
    ALL = [[0, INF]]
    if op == "a":
        return env[phi[1]]
    if op in "tf":
        return ALL if op == "t" else []
    if op == "!":
        return complement(go(phi[1]))
    if op == "&":
        return complement(union([i for c in phi[1:] for i in complement(go(c))]))
    if op == "|":
        return union([i for c in phi[1:] for i in go(c)])
    if op == "->":
        return union(complement(go(phi[1])) + go(phi[2]))
    if op in ("<->", "xor"):
        a, b = go(phi[1]), go(phi[2])
        same = union(meet(a, b) + meet(complement(a), complement(b)))
        return same if op == "<->" else complement(same)
    lb, ub, xs = phi[1], phi[2], [go(c) for c in phi[3:]]
    no = complement
    if op == "F":
        return union([[s - ub, e - lb] for s, e in xs[0]])
    if op == "G":
        return no(union([[s - ub, e - lb] for s, e in no(xs[0])]))
    if op == "O":
        return union([[s + lb, e + ub] for s, e in xs[0]])
    if op == "H":
        return no(union([[s + lb, e + ub] for s, e in no(xs[0])]))
    if op == "U":
        return until(lb, ub, *xs)
    if op == "R":
        return no(until(lb, ub, no(xs[0]), no(xs[1])))
    if op == "S":
        return since(lb, ub, *xs)
    return no(since(lb, ub, no(xs[0]), no(xs[1])))


def from_rows(lens, vals, after):
    """The intervals of a column of row values held for lens steps each, and `after` for ever after."""
    out, t = [], 0
    for m, v in zip(lens, vals):
        if v:
            out.append([t, t + m])
        t += m
    if after:
        out.append([t, INF])
    return union(out)


def check(phi, lens, cols, seq, wpd):
    """As check_columns, for columns of values of rows of the given lengths."""
    return check_columns(phi, sum(lens), {a: (lens, c) for a, c in cols.items()}, seq, wpd)


def check_columns(phi, n, cols, seq, wpd):
    """None, or why a verdict stream is no sound and complete account of phi on columns (lengths, values) of n steps."""
    done = -1
    for i, after in enumerate(["hold", "flip", 0, 1]):
        env = {a: from_rows(l, c, c[-1] if after == "hold" else 1 - c[-1] if after == "flip" else after) for a, (l, c) in cols.items()}
        holds = evaluate(phi, env)
        fails = complement(holds)
        prev = -1
        at = {True: 0, False: 0}
        for t, b in seq:
            if t <= prev:
                return "verdict time %d reported after %d was already covered" % (t, prev)
            # the first interval on which the verdict is wrong that does not end before this verdict's steps
            xs = fails if b else holds
            k = at[b]
            while k < len(xs) and xs[k][1] <= prev + 1:
                k += 1
            at[b] = k
            # a continuation says nothing about verdicts that are settled
            if k < len(xs) and xs[k][0] <= t:
                bad = max(xs[k][0], prev + 1)
                return "verdict for %d..%d is %s, but at %d it is %s%s" % (prev + 1, t, b, bad, not b, "" if bad + wpd < n else " under a continuation of the trace")
            prev = t
        done = prev
    if done < n - 1 - wpd:
        return "no verdict for time %d although all inputs up to %d (bound %d) arrived" % (done + 1, n - 1, n - 1)
    return None
