import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import bz, e2e, gen, logic, pw, rich
from hypothesis import strategies as st


@st.composite
def rows(draw, names, column, max_rows=12):
    """A trace of rows that each hold for some steps -> (row ends, columns expanded)."""
    k = draw(st.integers(1, max_rows))
    lens = [draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4, 5, 7, 10, 20])) for _ in range(k)]
    vals = {s: draw(column(s, k)) for s in names}
    cols = {s: [v for v, m in zip(vals[s], lens) for _ in range(m)] for s in names}
    return lens, cols


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["FT", "PT"]))
    # atoms: inputs, or expressions of the booleanizer without memory
    use_bz = draw(st.integers(0, 2)) == 0
    if use_bz:
        types = bz.TYPES
        n_at = draw(st.integers(1, 3))
        atoms = [bz.avoid_eq_false(draw(bz.expr("b", 2, prev=False, tau=False))) for _ in range(n_at)]
        names = ["A%d" % i for i in range(n_at)]
    else:
        atoms = None
        names = gen.SIGS
    fs = draw(gen.formulas(names, gen.FT_OPS if kind == "FT" else gen.PT_OPS, max_formulas=4, max_ub=draw(st.sampled_from([3, 8])), big=30 if draw(st.integers(0, 3)) == 0 else 0, consts=False))
    if use_bz:
        atoms = bz.rename_defs(atoms)
    sigs = sorted(bz.TYPES) if use_bz else names
    traces = []
    for _ in range(1 if use_bz else 4):
        if use_bz:
            k = draw(st.integers(1, 12))
            tr = draw(bz.trace(min_n=k, max_n=k))
            k = tr["n"]
            lens = [draw(st.sampled_from([1, 1, 2, 3, 5, 8])) for _ in range(k)]
            cols = {s: [v for v, m in zip(c, lens) for _ in range(m)] for s, c in tr["cols"].items()}
        else:
            lens, cols = draw(rows(sigs, lambda s, k: gen.bool_column(k)))
        traces.append({"lens": lens, "cols": cols, "plain": draw(st.integers(0, 3)), "sp": draw(st.sampled_from([" ", " ", "  "])), "merge": draw(st.booleans())})
    return {"kind": kind, "fs": fs, "atoms": atoms, "traces": traces, "flags": draw(st.sampled_from([[], ["--no-cse"], ["--no-rewrite"], ["--extops"]]))}


def event_csv(tr, order, cell):
    out = ["#" + ",".join(order)]
    t = -1
    for i, m in enumerate(tr["lens"]):
        t += m
        v = ",".join(cell(s, t) for s in order)
        if m == 1 and (tr["plain"] >> (i % 2)) & 1:
            out.append(v)  # a row without a time is the next step
        else:
            out.append("@%d%s%s" % (t, tr["sp"], v))
    return "\n".join(out) + "\n"


def run(env, case):
    fs = case["fs"]
    if case["atoms"] and "--no-cse" in case["flags"]:
        # the default bounds of the monitor: 256 instructions
        weight = lambda e: 1 + sum(weight(c) for c in e[1:] if isinstance(c, list))
        if sum(weight(case["atoms"][int(p[1][1:])]) if p[0] == "a" else 0 for f in fs for p in logic.walk(f)) > 180:
            raise Rejected()
    if case["atoms"]:
        order, types = sorted(bz.TYPES), bz.TYPES
        es = case["atoms"]
        sub = {"A%d" % i: bz.text(e) for i, e in enumerate(es)}
        text = bz.decls() + bz.defines(es) + "\n%sSPEC\n" % case["kind"] + "".join("  %s;\n" % logic.c2po(f, sub={k: "(%s)" % v for k, v in sub.items()}) for f in fs)
    else:
        order, types = gen.SIGS, {s: "b" for s in gen.SIGS}
        text = logic.spec_text(fs, order, case["kind"])
    env.write("s.c2po", text)
    env.write("h.csv", "#" + ",".join(order) + "\n")
    r = env.c2po(["--spec", "s.c2po", "--trace", "h.csv", "-o", "spec.bin"] + case["flags"] + (["-bz"] if case["atoms"] else []))
    both = False
    jumps = False
    for tr in case["traces"]:
        n = sum(tr["lens"])
        cols = tr["cols"]
        acols = {"A%d" % i: bz.column(e, cols, n) for i, e in enumerate(case["atoms"])} if case["atoms"] else cols
        if r.rc == 11 and "constant formula" in r.text and (any(e2e.is_constant(f, gen.SIGS) for f in fs) if not case["atoms"] else any(
                len({x for x in logic.truth(f, acols, n) if x is not None}) < 2 for f in fs)):
            raise Rejected()
        if r.rc != 0:
            raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
        csv = event_csv(tr, order, lambda s, t: bz.dec(cols[s][t]) if types[s] == "f" else "%d" % cols[s][t])
        env.write("trace.csv", csv)
        v = e2e.verdicts(e2e.run_monitor(env))
        try:
            e2e.check_formulas(fs, acols, n, v)
        except Violation as ex:
            raise Violation("%s\n%s\n%s" % (ex, text, csv))
        for i, f in enumerate(fs):  # the other evaluator agrees
            ex = pw.check(f, [1] * n, acols, v.get(i, []), logic.wpd(f))
            if ex:
                raise Violation("formula %d  %s\n%s\n%s\n%s" % (i, logic.c2po(f), ex, text, csv))
        both = both or e2e.both_values(v)
        jumps = jumps or max(tr["lens"]) > 1
    return {"nontrivial": both and jumps and any(logic.n_temporal(f) for f in fs), "labels": ["kind:" + case["kind"], "bz:%s" % bool(case["atoms"])]}


LAST = (1 << 31) - 1  # the time of a verdict has 31 bits


@st.composite
def wide(draw):
    kind = draw(st.sampled_from(["FT", "PT"]))
    fs, offs = [], {1}
    top = 1 << draw(st.sampled_from([8, 16, 17, 24, 26, 28]))
    for _ in range(draw(st.integers(1, 3))):
        f, o = draw(gen.wide(gen.SIGS, kind, top))
        fs.append(f)
        offs |= set(o)
    offs = sorted(offs)
    traces = []
    for _ in range(3):
        lens, room = [], LAST - max(logic.wpd(f) for f in fs) - max(p[2] if p[0] in logic.PAST else 0 for f in fs for p in logic.walk(f)) - 100
        for _ in range(draw(st.integers(1, 14))):
            m = draw(st.sampled_from([1, 1, 2, 3, 5]))
            if draw(st.integers(0, 1)):
                m = draw(st.sampled_from(offs)) + draw(st.integers(-3, 3))
            if m > room:
                break
            lens.append(max(1, m))
            room -= lens[-1]
        traces.append({"lens": lens, "cols": {s: draw(gen.bool_column(len(lens))) for s in gen.SIGS}})
    return {"kind": kind, "fs": fs, "traces": traces, "flags": draw(st.sampled_from([[], [], ["--no-cse"], ["--no-rewrite"], ["--extops"]]))}


def run_wide(env, case):
    fs = case["fs"]
    if not all(t["lens"] for t in case["traces"]):
        raise Rejected()
    text = logic.spec_text(fs, gen.SIGS, case["kind"])
    env.write("s.c2po", text)
    env.write("h.csv", "#" + ",".join(gen.SIGS) + "\n")
    r = env.c2po(["--spec", "s.c2po", "--trace", "h.csv", "-o", "spec.bin"] + case["flags"])
    if r.rc == 11 and "constant formula" in r.text:
        raise Rejected()  # P04 judges these
    if r.rc != 0:
        raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
    both = False
    for tr in case["traces"]:
        t, out = -1, ["#" + ",".join(gen.SIGS)]
        for i, m in enumerate(tr["lens"]):
            t += m
            out.append("@%d %s" % (t, ",".join("%d" % tr["cols"][s][i] for s in gen.SIGS)))
        csv = "\n".join(out) + "\n"
        env.write("trace.csv", csv)
        v = e2e.verdicts(e2e.run_monitor(env))
        for i, f in enumerate(fs):
            ex = pw.check(f, tr["lens"], tr["cols"], v.get(i, []), logic.wpd(f))
            if ex:
                raise Violation("formula %d  %s\n%s\nverdicts: %s\n%s\n%s" % (i, logic.c2po(f), ex, v.get(i, []), text, csv))
        both = both or e2e.both_values(v)
    big = max(p[2] for f in fs for p in logic.walk(f) if p[0] in logic.FUTURE + logic.PAST) if any(logic.n_temporal(f) for f in fs) else 0
    return {"nontrivial": both and big > 100, "labels": ["kind:" + case["kind"], "bound:2^%d" % big.bit_length()]}


CHECK = Check("P15", [
    Part("events", cases, run, 2400, 30000, "random future- or past-time formulas over inputs, or over memoryless booleanizer expressions; traces whose rows hold for 1-20 steps, with rows of one step written with or without their time"),
    Part("wide", wide, run_wide, 3000, 40000, "random formulas with bounds of up to 2^28 that need small queues, on traces of rows that hold for as long as the bounds are, give or take a few steps; verdicts of settled times compared with an evaluation on intervals, of others with four continuations"),
], rule="a temporal operator, a row of several steps, and both verdict values reported; distinct by the whole case",
    assumptions=["prev and the time stamp operator are not used: the documentation defines a row with a time only as a repetition of input values"])

if __name__ == "__main__":
    main(CHECK)
