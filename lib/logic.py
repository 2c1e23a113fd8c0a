"""Formulas as JSON-able lists, the reference semantics, and text rendering.

  ["a", name] ["t"] ["f"] ["!", x] ["&", x, y, ..] ["|", x, y, ..] ["->", a, b]
  ["<->", a, b] ["xor", a, b] ["G"|"F"|"H"|"O", lb, ub, x] ["U"|"R"|"S"|"T", lb, ub, a, b]

The evaluator is written straight from docs/Preliminaries/mltl.md and works on
whole truth vectors in Kleene logic: 1, 0, or None for "depends on inputs that
have not arrived".  It shares no code and no algorithm with C2PO or the monitor.
"""
UN_T = ("G", "F", "H", "O")
BIN_T = ("U", "R", "S", "T")
FUTURE = ("G", "F", "U", "R")
PAST = ("H", "O", "S", "T")


def children(phi):
    op = phi[0]
    if op in ("a", "t", "f"):
        return []
    if op in UN_T or op in BIN_T:
        return phi[3:]
    return phi[1:]


def with_children(phi, ch):
    op = phi[0]
    if op in ("a", "t", "f"):
        return phi
    if op in UN_T or op in BIN_T:
        return [op, phi[1], phi[2]] + ch
    return [op] + ch


def walk(phi):
    yield phi
    for c in children(phi):
        yield from walk(c)


def size(phi):
    return sum(1 for _ in walk(phi))


def depth(phi):
    return 1 + max([depth(c) for c in children(phi)], default=0)


def atoms(phi):
    return sorted({p[1] for p in walk(phi) if p[0] == "a"})


def n_temporal(phi):
    return sum(1 for p in walk(phi) if p[0] in FUTURE or p[0] in PAST)


def wpd(phi):
    """Worst-case propagation delay: future window beyond t that can matter."""
    op = phi[0]
    m = max([wpd(c) for c in children(phi)], default=0)
    return m + phi[2] if op in FUTURE else m


def k_not(x):
    return None if x is None else 1 - x


def k_and(xs):
    r = 1
    for x in xs:
        if x == 0:
            return 0
        if x is None:
            r = None
    return r


def k_or(xs):
    r = 0
    for x in xs:
        if x == 1:
            return 1
        if x is None:
            r = None
    return r


def evaluate(phi, trace, n, L):
    """Kleene truth vector of phi at times 0..L-1; atoms known for t < n only."""
    memo = {}

    def at(v, j):
        return v[j] if j < L else None

    def go(p):
        key = id(p)
        if key in memo:
            return memo[key]
        op = p[0]
        if op == "a":
            col = trace[p[1]]
            r = [col[t] if t < n else None for t in range(L)]
        elif op == "t":
            r = [1] * L
        elif op == "f":
            r = [0] * L
        elif op == "!":
            r = [k_not(x) for x in go(p[1])]
        elif op == "&":
            r = [k_and(xs) for xs in zip(*[go(c) for c in p[1:]])]
        elif op == "|":
            r = [k_or(xs) for xs in zip(*[go(c) for c in p[1:]])]
        elif op == "->":
            a, b = go(p[1]), go(p[2])
            r = [k_or((k_not(x), y)) for x, y in zip(a, b)]
        elif op in ("<->", "xor"):
            a, b = go(p[1]), go(p[2])
            r = [None if x is None or y is None else int((x == y) == (op == "<->")) for x, y in zip(a, b)]
        else:
            lb, ub = p[1], p[2]
            vs = [go(c) for c in p[3:]]
            r = []
            for i in range(L):
                if op == "G":
                    r.append(k_and(at(vs[0], j) for j in range(i + lb, i + ub + 1)))
                elif op == "F":
                    r.append(k_or(at(vs[0], j) for j in range(i + lb, i + ub + 1)))
                elif op in ("U", "R"):
                    # U: scan from the right: u(j) = xi(j) or (psi(j) and u(j+1))
                    psi, xi = vs
                    acc = 0 if op == "U" else 1
                    for j in range(i + ub, i + lb - 1, -1):
                        x, y = at(xi, j), at(psi, j)
                        if op == "U":
                            acc = k_or((x, k_and((y, acc))))
                        else:
                            acc = k_and((x, k_or((y, acc))))
                    r.append(acc)
                else:
                    js = range(max(0, i - ub), i - lb + 1)
                    if op == "H":
                        r.append(k_and(vs[0][j] for j in js))
                    elif op == "O":
                        r.append(k_or(vs[0][j] for j in js))
                    else:
                        psi, xi = vs
                        acc = 0 if op == "S" else 1
                        for j in js:
                            if op == "S":
                                acc = k_or((xi[j], k_and((psi[j], acc))))
                            else:
                                acc = k_and((xi[j], k_or((psi[j], acc))))
                        r.append(acc)
        memo[key] = r
        return r

    return go(phi)


def truth(phi, trace, n):
    """Kleene verdicts at 0..n-1 given only the first n inputs."""
    return evaluate(phi, trace, n, n + wpd(phi))[:n]


# ------------------------------------------------------------------ text

C2PO_OPS = {"&": "&&", "|": "||", "->": "->", "<->": "<->", "xor": "xor"}
# low to high, as documented in docs/References/formats/c2po_file.md
PREC = {"->": 1, "xor": 1, "<->": 1, "|": 2, "&": 3, "U": 4, "R": 4, "S": 4, "T": 4}


def c2po(phi, neg="!", sub=None):
    """Fully parenthesised C2PO text; sub maps atom names to other expression text."""
    op = phi[0]
    if op == "a":
        return sub[phi[1]] if sub and phi[1] in sub else phi[1]
    if op == "t":
        return "true"
    if op == "f":
        return "false"
    if op == "!":
        return "%s(%s)" % (neg, c2po(phi[1], neg, sub))
    if op in UN_T:
        return "%s[%d,%d](%s)" % (op, phi[1], phi[2], c2po(phi[3], neg, sub))
    if op in BIN_T:
        return "((%s) %s[%d,%d] (%s))" % (c2po(phi[3], neg, sub), op, phi[1], phi[2], c2po(phi[4], neg, sub))
    return "(" + (" %s " % C2PO_OPS[op]).join("(%s)" % c2po(c, neg, sub) if c[0] not in ("a", "t", "f") else c2po(c, neg, sub) for c in phi[1:]) + ")"


def mltl_std(phi, names):
    """MLTL-STD text (only for atoms/constants it has); names maps atom -> index."""
    op = phi[0]
    if op == "a":
        return "a%d" % names[phi[1]]
    if op in ("t", "f"):
        return "true" if op == "t" else "false"
    if op == "!":
        return "!(%s)" % mltl_std(phi[1], names)
    if op in UN_T:
        return "%s[%d,%d](%s)" % (op, phi[1], phi[2], mltl_std(phi[3], names))
    if op in BIN_T:
        return "((%s) %s[%d,%d] (%s))" % (mltl_std(phi[3], names), op, phi[1], phi[2], mltl_std(phi[4], names))
    return "(" + (" %s " % op).join("(%s)" % mltl_std(c, names) for c in phi[1:]) + ")"


def spec_text(formulas, sigs, kind="FT", names=None, types=None):
    """A .c2po file: INPUT, and one section with the formulas in order."""
    types = types or {}
    lines = ["INPUT"]
    by = {}
    for s in sigs:
        by.setdefault(types.get(s, "bool"), []).append(s)
    for ty, ss in by.items():
        lines.append("  %s: %s;" % (", ".join(ss), ty))
    lines.append("%sSPEC" % kind)
    for i, f in enumerate(formulas):
        lab = (names[i] + ": ") if names and names[i] else ""
        lines.append("  %s%s;" % (lab, f if isinstance(f, str) else c2po(f)))
    return "\n".join(lines) + "\n"


def csv_bool(trace, order, n, header=True):
    out = []
    if header:
        out.append("#" + ",".join(order))
    for t in range(n):
        out.append(",".join(str(int(trace[s][t])) for s in order))
    return "\n".join(out) + "\n"


# ------------------------------------------------------------------ verdicts


def parse_verdicts(text):
    """'id:time,T|F' lines -> {id: [(time, bool)]}; anything else -> ValueError."""
    out = {}
    for line in text.split("\n"):
        if not line.strip():
            continue
        head, tf = line.rsplit(",", 1)
        fid, t = head.rsplit(":", 1)
        if tf not in ("T", "F"):
            raise ValueError(line)
        out.setdefault(int(fid), []).append((int(t), tf == "T"))
    return out


def expand(seq):
    """Aggregated verdicts -> {t: bool}; raises ValueError when times do not increase."""
    out = {}
    nxt = 0
    for t, b in seq:
        if t < nxt:
            raise ValueError("verdict time %d reported after %d was already covered" % (t, nxt - 1))
        for k in range(nxt, t + 1):
            out[k] = b
        nxt = t + 1
    return out


def extensions(trace, n, m, seeds):
    """Deterministic continuations of a boolean trace by m steps: all-0, all-1, hashed."""
    import random
    outs = []
    names = sorted(trace)
    for mode in ["0", "1", "hold", "flip"] + list(seeds):
        ext = {}
        rng = random.Random("%s/%d/%d" % (mode, n, m))
        for s in names:
            col = list(trace[s][:n])
            if mode == "0":
                col += [0] * m
            elif mode == "1":
                col += [1] * m
            elif mode == "hold":
                col += [col[-1] if col else 0] * m
            elif mode == "flip":
                col += [1 - (col[-1] if col else 0)] * m
            else:
                col += [rng.getrandbits(1) for _ in range(m)]
            ext[s] = col
        outs.append(ext)
    return outs


def check_verdicts(phi, trace, n, seq, nseeds=6, limit=None):
    """None, or why the verdict stream is not a sound account of phi on the n inputs.
    limit: verdicts above this time are accepted as vacuous (past-time startup)."""
    try:
        got = expand(seq)
    except ValueError as e:
        return str(e)
    w = wpd(phi)
    k = truth(phi, trace, n)
    late = []
    for t, b in got.items():
        if t >= n:
            late.append((t, b))
            continue
        if k[t] is not None:
            if k[t] != int(b):
                return "verdict at %d is %s, reference semantics says %s" % (t, b, bool(k[t]))
        else:
            late.append((t, b))
    if late:
        hi = max(t for t, _ in late)
        m = max(0, hi + w + 1 - n)
        for ext in extensions(trace, n, m, range(nseeds)):
            full = evaluate(phi, ext, n + m, n + m + w)
            for t, b in late:
                if full[t] is not None and full[t] != int(b):
                    return "verdict at %d is %s after %d inputs, but a continuation makes it %s" % (t, b, n, bool(full[t]))
    return None


def check_complete(phi, n, seq):
    got = expand(seq)
    w = wpd(phi)
    for t in range(0, n - w):
        if t not in got:
            return "no verdict for time %d although all inputs up to %d (bound %d) arrived" % (t, n - 1, t + w)
    return None


# ------------------------------------------------------------------ reading C2PO's own output

_TOK = None


def tokens(text):
    import re
    global _TOK
    if _TOK is None:
        _TOK = re.compile(r"\s*(<->|->|&&|\|\||[()!]|\[\d+,\d+\]|[A-Za-z_][A-Za-z_0-9]*)")
    pos, out = 0, []
    text = text.rstrip()
    while pos < len(text):
        m = _TOK.match(text, pos)
        if not m:
            raise ValueError("unexpected text at %r" % text[pos:pos + 30])
        out.append(m.group(1))
        pos = m.end()
    return out


_FROM = {"&&": "&", "||": "|", "->": "->", "<->": "<->", "xor": "xor", "!": "!"}


def parse_prefix(text):
    """One formula as print_prefix / write_prefix show it (boolean signals only)."""
    tk = tokens(text)
    i = 0

    def go():
        nonlocal i
        t = tk[i]
        i += 1
        if t != "(":
            return ["t"] if t == "true" else ["f"] if t == "false" else ["a", t]
        op = tk[i]
        i += 1
        if op in UN_T + BIN_T and tk[i].startswith("["):
            lb, ub = map(int, tk[i][1:-1].split(","))
            i += 1
            head = [op, lb, ub]
        else:
            head = [_FROM[op]]
        while tk[i] != ")":
            head.append(go())
        i += 1
        return head

    r = go()
    if i != len(tk):
        raise ValueError("trailing text")
    return r
