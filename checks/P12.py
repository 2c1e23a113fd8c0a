import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import re
import bz, e2e, gen, logic, rich
from hypothesis import strategies as st

FLAGS = [[], [], [], ["--no-cse"], ["--extops"], ["--no-rewrite"]]


@st.composite
def layout(draw, names, types, cols, n):
    """Where each signal is read from: ["header", columns in order] (null: unused) or ["map", {name: column}, width, lines]."""
    mode = draw(st.sampled_from(["header", "map", "map", "both"]))
    lay = {"mode": mode, "indent": draw(st.sampled_from([0, 0, 0, 2])), "stdin": draw(st.integers(0, 3)) == 0, "junk": draw(st.integers(0, 10 ** 6)),
           "nl": draw(st.booleans()), "eol": draw(st.sampled_from(["\n", "\n", "\n", "\r\n"]))}
    if mode == "header":
        cs = list(names) + [None] * draw(st.integers(0, 3))
        lay["cols"] = list(draw(st.permutations(cs)))
        # a name may be given twice: the right-most column counts
        if draw(st.integers(0, 5)) == 0:
            lay["twice"] = [draw(st.integers(0, len(cs) - 1)), draw(st.sampled_from(names))]
        lay["space"] = draw(st.booleans())
        return lay
    share = {}
    at = {}
    arrays = {}
    for s in names:
        m = re.match(r"(\w+)\[(\d+)\]$", s)
        if m:
            arrays.setdefault(m.group(1), []).append(int(m.group(2)))
    free = list(draw(st.permutations(range(2 * len(names) + 2))))
    sliced = []
    for a, idx in sorted(arrays.items()):
        idx = sorted(idx)
        if len(idx) > 1 and draw(st.booleans()):
            lo = draw(st.integers(0, len(idx) - 2))
            hi = draw(st.integers(lo + 1, len(idx) - 1))
            k = hi - lo + 1
            base = [b for b in range(2 * len(names) + 2) if all(b + i in free for i in range(k))]
            if base:
                b = draw(st.sampled_from(base))
                sliced.append([a, lo, hi, b])
                for i in range(k):
                    at["%s[%d]" % (a, lo + i)] = b + i
                    free.remove(b + i)
    for s in names:
        if s in at:
            continue
        prior = [x for x in at if types[x] == types[s] and x not in share]
        if prior and draw(st.integers(0, 4)) == 0:
            x = draw(st.sampled_from(prior))
            share[s] = x
            at[s] = at[x]
        elif free:
            at[s] = free.pop()
        else:
            at[s] = 2 * len(names) + 2 + len(at)
    lay.update(at=at, share=share, sliced=sliced, order=draw(st.integers(0, 10 ** 6)), extra=draw(st.integers(0, 2)),
               dup=draw(st.sampled_from([None, None, None] + list(names))), blank=draw(st.booleans()), header=mode == "both")
    return lay


def write_layout(env, case, names, types, cols, n):
    """Writes trace.csv (and m.map); -> compiler arguments."""
    import random
    lay = case["lay"]
    rnd = random.Random(lay["junk"])
    cell = lambda s, t: bz.dec(cols[s][t]) if types[s] == "f" else "%d" % cols[s][t]
    junk = lambda: rnd.choice(["0", "1", "7", "-3", "2.5", "0.0"])
    at = {}
    if lay["mode"] == "header":
        cs = list(lay["cols"])
        if "twice" in lay:
            # an earlier column of the same name is not read
            pos, s = lay["twice"]
            pos = min(pos, cs.index(s))
            cs.insert(pos, "!" + s)
        at = {i: s for i, s in enumerate(cs) if s and s[0] != "!"}
        width = len(cs)
        hs = [c.lstrip("!") if c else "unused%d" % i for i, c in enumerate(cs)]
        head = ("# " + ", ".join(hs)) if lay["space"] else "#" + ",".join(hs)
        args = ["--trace", "trace.csv"]
    else:
        for s in names:
            at.setdefault(lay["at"][s], s)
        width = max(at) + 1
        lines = ["%s[%d..%d]:%d" % tuple(x) for x in lay["sliced"]]
        done = {"%s[%d]" % (a, i) for a, lo, hi, _ in lay["sliced"] for i in range(lo, hi + 1)}
        lines += ["%s:%d" % (s, lay["at"][s]) for s in names if s not in done]
        rnd2 = random.Random(lay["order"])
        for i in range(lay["extra"]):
            lines.append("nosuch%d%s:%d" % (i, rnd2.choice(["", "[3]", "[0..1]", "[10..12]"]), rnd2.randrange(width + 2)))
        rnd2.shuffle(lines)
        if lay["dup"] and lay["dup"] not in done:
            lines.insert(0, "%s:%d" % (lay["dup"], rnd2.randrange(width)))  # the later line counts
        if lay["blank"]:
            lines = [l.replace(":", " : ") for l in lines]
        env.write("m.map", "\n".join(lines) + ("\n" if lay["nl"] else ""))
        head = None
        args = ["--map", "m.map"]
        if lay["header"]:  # both are given: the header is ignored
            hs = list(names) + ["x%d" % i for i in range(max(0, width - len(names)))]
            rnd2.shuffle(hs)
            head = "#" + ",".join(hs)
            args = ["--trace", "trace.csv", "--map", "m.map"]
    rows = [",".join(cell(at[i], t) if i in at else junk() for i in range(width)) for t in range(n)]
    eol = lay["eol"]
    text = (head + eol if head else "") + "".join(" " * lay["indent"] + r + eol for r in rows)
    if not lay["nl"] and text:
        text = text[:-len(eol)]
    env.write("trace.csv", text)
    return args


@st.composite
def cases(draw):
    c = draw(rich.cases(depth=draw(st.integers(1, 2))))
    c["flags"] = draw(st.sampled_from(FLAGS))
    types = rich.sig_types(c)
    tr = c["trace"]
    c["lay"] = draw(layout(sorted(tr["order"]), types, tr["cols"], tr["n"]))
    for s, x in c["lay"].get("share", {}).items():
        tr["cols"][s] = list(tr["cols"][x])
    return c


def run(env, case):
    el = rich.Elab(case)
    fs = [el.go(e) for _, e in case["fs"]]
    types = rich.sig_types(case)
    n, cols = case["trace"]["n"], case["trace"]["cols"]
    acols = {k: bz.column(a, cols, n, types) for k, a in el.atoms.items()}
    if max(logic.size(f) for f in fs) > 120:
        raise Rejected()
    names = sorted(case["trace"]["order"])
    text = rich.program(case)
    env.write("s.c2po", text)
    args = write_layout(env, case, names, types, cols, n)
    r = env.c2po(["--spec", "s.c2po", "-o", "spec.bin"] + args + (["-bz"] if case["bz"] else []) + case["flags"])
    if r.rc == 11 and "constant formula" in r.text and any(
            len({x for x in logic.truth(f, acols, n) if x is not None}) < 2 for f in fs):
        raise Rejected()
    what = "\n%s\n%s\n%s" % (text, env.read("trace.csv"), env.read("m.map") or "")
    if r.rc != 0 or r.crashed or r.timeout:
        raise Violation("C2PO rejected a valid mapping (exit %d)%s\n%s" % (r.rc, what, e2e.text_tail(r.text)))
    if case["lay"]["stdin"]:
        m = env.monitor(trace=None, input=env.read("trace.csv", binary=True))
    else:
        m = env.monitor()
    if m.rc != 0 or m.timeout:
        raise Violation("the monitor failed (exit %d)%s\n%s" % (m.rc, what, e2e.text_tail(m.text)))
    v = e2e.verdicts(m)
    try:
        e2e.check_formulas(fs, acols, n, v)
    except Violation as ex:
        raise Violation("%s%s" % (ex, what))
    lay = case["lay"]
    labs = ["mode:" + lay["mode"], "bz:%s" % case["bz"]]
    labs += [k for k in ("twice", "share", "sliced", "stdin", "indent", "dup") if lay.get(k)]
    moved = lay["mode"] != "header" or [c for c in lay["cols"] if c] != names
    return {"nontrivial": e2e.both_values(v) and moved and len(names) > 1, "labels": labs}


# ---- wide arrays mapped by slices

@st.composite
def slice_cases(draw):
    arrays = {"A": draw(st.integers(1, 26))}
    if draw(st.booleans()):
        arrays["Bb_1"] = draw(st.integers(1, 14))
    pieces, at, pos = [], {}, draw(st.integers(0, 3))
    for a, k in sorted(arrays.items()):
        i = 0
        while i < k:
            j = min(k - 1, i + draw(st.sampled_from([0, 1, 3, 7, 15])))
            pieces.append([a, i, j, draw(st.booleans())])
            i = j + 1
    pieces = list(draw(st.permutations(pieces)))
    for p in pieces:
        p.append(pos)
        for i in range(p[1], p[2] + 1):
            at["%s[%d]" % (p[0], i)] = pos
            pos += 1
        pos += draw(st.integers(0, 2))
    used = draw(st.lists(st.sampled_from(sorted(at)), min_size=1, max_size=6, unique=True))
    n = draw(st.integers(1, 8))
    return {"arrays": arrays, "pieces": pieces, "at": at, "width": pos, "used": used, "bz": draw(st.booleans()),
            "n": n, "cols": {s: draw(gen.bool_column(n)) for s in sorted(at)}}


def run_slices(env, case):
    text = "INPUT\n" + "".join("  %s: bool[%d];\n" % x for x in sorted(case["arrays"].items())) + "FTSPEC\n" + "".join("  %s;\n" % s for s in case["used"])
    env.write("s.c2po", text)
    # an array of one element
    lines = []
    for a, i, j, whole, pos in case["pieces"]:
        if whole or i == j:
            lines.append("%s[%d]:%d" % (a, i, pos) if i == j and not whole else "%s[%d..%d]:%d" % (a, i, j, pos))
        else:
            lines += ["%s[%d]:%d" % (a, k, pos + k - i) for k in range(i, j + 1)]
    env.write("m.map", "\n".join(lines) + "\n")
    back = {c: s for s, c in case["at"].items()}
    csv = "".join(",".join(str(case["cols"][back[c]][t]) if c in back else "1" for c in range(case["width"])) + "\n" for t in range(case["n"]))
    env.write("trace.csv", csv)
    what = "\n%s\n%s\n%s" % (text, env.read("m.map"), csv)
    r = env.c2po(["--spec", "s.c2po", "--map", "m.map", "-o", "spec.bin"] + (["-bz"] if case["bz"] else []))
    if r.rc != 0 or r.crashed or r.timeout:
        raise Violation("C2PO rejected a valid map (exit %d)%s\n%s" % (r.rc, what, e2e.text_tail(r.text)))
    v = e2e.verdicts(e2e.run_monitor(env))
    try:
        e2e.check_formulas([["a", s] for s in case["used"]], case["cols"], case["n"], v)
    except Violation as ex:
        raise Violation("%s%s" % (ex, what))
    return {"nontrivial": len(case["used"]) > 1 and any(len(set(case["cols"][s])) > 1 for s in case["used"]),
            "labels": ["slices:%d" % sum(1 for p in case["pieces"] if p[3])]}


# ---- many columns, long names, long values

@st.composite
def long_cases(draw):
    k = draw(st.sampled_from([3, 40, 120, 200, 250]))
    # a row is read into a buffer of 8192 characters
    width = draw(st.integers(1, 7900 // k - 2 if draw(st.booleans()) else 12))
    used = sorted(draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=5, unique=True)) + [k - 1])
    n = draw(st.integers(1, 6))
    return {"k": k, "name": draw(st.sampled_from([0, 0, 10, 40, 60])), "width": min(width, 40), "blank": max(0, width - 40), "used": sorted(set(used)), "n": n, "bz": draw(st.booleans()), "mode": draw(st.sampled_from(["header", "header", "map"])),
            "order": draw(st.integers(0, 10 ** 6)), "rest": draw(st.integers(0, 10 ** 6)), "tail": draw(st.sampled_from([0, 0, 0, 10, 300, 5000])),
            "wide": draw(st.sampled_from([0, 0, 0, 0, 0, 40])), "cols": [draw(gen.bool_column(n)) for _ in sorted(set(used))]}


def run_long(env, case):
    import random
    k, n, rnd = case["k"], case["n"], random.Random(case["rest"])
    names = ["x%d%s" % (i, "_" * case["name"]) for i in range(k)]
    order = list(names)
    random.Random(case["order"]).shuffle(order)
    use = {names[i]: c for i, c in zip(case["used"], case["cols"])}
    typ = "float" if case["bz"] else "bool"
    text = "INPUT\n  %s: %s;\nFTSPEC\n" % (", ".join(names), typ) + "".join("  %s;\n" % (s + " > 1.0" if case["bz"] else s) for s in use)
    env.write("s.c2po", text)
    pad = lambda v: " " * (case["blank"] + case["wide"]) + (("2." if v else "0.") + "0" * case["width"] if case["bz"] else "%d" % v)
    rows = [",".join(pad(use[s][t] if s in use else rnd.getrandbits(1)) for s in order) for t in range(n)]
    over = max(map(len, rows)) + 2 * 256 > 8000
    if case["tail"]:
        # more columns, which nothing is mapped to
        order = order + ["y%d" % i for i in range(case["tail"])]
        rows = [",".join([r] + ["%d" % rnd.getrandbits(1) for _ in range(case["tail"])]) for r in rows]
    head = "#" + ",".join(order) + "\n"
    env.write("trace.csv", (head if case["mode"] == "header" else "") + "".join(r + "\n" for r in rows))
    env.write("m.map", "".join("%s:%d\n" % (s, i) for i, s in enumerate(order)))
    r = env.c2po(["--spec", "s.c2po", "-o", "spec.bin", "--no-aux"] + (["--trace", "trace.csv"] if case["mode"] == "header" else ["--map", "m.map"]) + (["-bz"] if case["bz"] else []))
    what = "\n%s\n%s" % (text, env.read("trace.csv"))
    if r.rc != 0 or r.crashed or r.timeout:
        raise Violation("C2PO rejected a valid mapping (exit %d)%s\n%s" % (r.rc, what, e2e.text_tail(r.text)))
    if over:  # the row may be refused, but must not be misread
        m = env.monitor()
        if m.rc < 0 or m.timeout:
            raise Violation("the monitor crashed (exit %d)%s" % (m.rc, what))
    else:
        m = e2e.run_monitor(env)
    v = e2e.verdicts(m)
    try:
        e2e.check_formulas([["a", s] for s in use], use, n, v, complete=m.rc == 0)
    except Violation as ex:
        raise Violation("%s%s" % (ex, what))
    return {"nontrivial": k >= 40 and e2e.both_values(v), "labels": ["row too long" if m.rc else "row read", "row:%d.." % (max(map(len, rows)) // 1000 * 1000), "header:%s" % ("none" if case["mode"] == "map" else "%d.." % (len(head) // 4096 * 4096))]}


# ---- incomplete mappings

@st.composite
def missing_cases(draw):
    names = ["p", "q", "r", "s", "unused"]
    fs = draw(gen.formulas(names[:4], gen.FT_OPS, max_formulas=2, max_depth=3, consts=False))
    used = sorted({a for f in fs for a in logic.atoms(f)})
    have = [s for s in names if draw(st.integers(0, 5))]
    return {"fs": fs, "used": used, "have": list(draw(st.permutations(have))), "mode": draw(st.sampled_from(["header", "map", "none"])),
            "defs": draw(st.booleans()), "bz": draw(st.booleans())}


def run_missing(env, case):
    names = ["p", "q", "r", "s", "unused"]
    if case["defs"]:  # references through definitions count
        body = [logic.c2po(f) for f in case["fs"]]
        text = "INPUT\n  %s: bool;\nDEFINE\n%sFTSPEC\n%s" % (", ".join(names), "".join("  d%d := %s;\n" % x for x in enumerate(body)),
                                                          "".join("  d%d;\n" % i for i in range(len(body))))
    else:
        text = logic.spec_text(case["fs"], names, "FT")
    env.write("s.c2po", text)
    env.write("trace.csv", ("#" + ",".join(case["have"]) + "\n" if case["mode"] == "header" else "") + "1,0,1,0,1\n")
    args = ["--trace", "trace.csv"]
    if case["mode"] == "map":
        env.write("m.map", "".join("%s:%d\n" % (s, i) for i, s in enumerate(case["have"])))
        args = ["--map", "m.map"]
    lost = [s for s in case["used"] if s not in case["have"] or case["mode"] == "none"]
    r = env.c2po(["--spec", "s.c2po", "-o", "spec.bin"] + args + (["-bz"] if case["bz"] else []))
    what = "\n%s\n%s: %s\n%s" % (text, case["mode"], case["have"], e2e.text_tail(r.text))
    if r.crashed or r.timeout or "unexpected error" in r.text:
        raise Violation("C2PO failed internally%s" % what)
    if lost:
        if r.rc == 0:
            raise Violation("accepted although %s are not mapped%s" % (lost, what))
        if env.exists("spec.bin"):
            raise Violation("refused, but wrote a binary%s" % what)
        if case["mode"] != "none" and not all(re.search(r"\b%s\b" % s, r.text) for s in lost):
            raise Violation("refused without naming %s%s" % (lost, what))
    elif r.rc != 0 and not (r.rc == 11 and "constant formula" in r.text and any(e2e.is_constant(f, names) for f in case["fs"])):
        raise Violation("rejected although all referenced signals are mapped (exit %d)%s" % (r.rc, what))
    return {"nontrivial": bool(lost), "labels": ["mode:" + case["mode"], "lost:%s" % bool(lost)]}


CHECK = Check("P12", [
    Part("mapping", cases, run, 2400, 30000, "random full-language programs; header in random column order with unused and repeated columns, or a map with gaps, shared columns, slices, unknown symbols, or both; indented rows, final newline or not; trace as file or standard input"),
    Part("slices", slice_cases, run_slices, 1200, 15000, "arrays of up to 26 elements mapped piecewise by slices and single elements"),
    Part("long", long_cases, run_long, 600, 6000, "up to 250 columns, names of up to 64 characters and padded values, up to 5000 further columns nothing is mapped to: rows and header lines of any length; a row whose used part exceeds 8000 characters may be refused"),
    Part("missing", missing_cases, run_missing, 800, 10000, "some signals not mapped: refused by name if referenced, accepted if not"),
], rule="mapping: at least two inputs, not mapped in their natural order, both verdict values printed; slices: two elements used, one of which varies; missing: a referenced signal is not mapped",
    assumptions=["columns that no signal is mapped to hold arbitrary numbers"])

if __name__ == "__main__":
    main(CHECK)
