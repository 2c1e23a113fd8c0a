import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import random
import e2e, gen, logic, pw
from hypothesis import strategies as st

SIGS = e2e.SIGS


def make(kind):
    ops = gen.FT_OPS if kind == "FT" else gen.PT_OPS

    def strategy(mode):
        @st.composite
        def cases(draw):
            if mode == "small":
                fs = draw(gen.formulas(SIGS, ops, max_formulas=8, max_depth=4, max_ub=6))
                tr = draw(gen.bool_traces(SIGS, 0, 24))
            elif mode == "flat":  # one or two temporal operators, every interval shape, longer traces
                fs = [draw(gen.formula(SIGS[:3], ops, 2, max_ub=12, consts=False, root=draw(st.integers(0, 4)) > 0)) for _ in range(draw(st.sampled_from([1, 4, 8])))]
                tr = draw(gen.bool_traces(SIGS[:3], 8, 48))
            else:
                fs = draw(gen.formulas(SIGS, ops, max_formulas=4, max_depth=3, max_ub=30, consts=False))
                tr = draw(gen.bool_traces(SIGS, 30, 160))
            return {"kind": kind, "fs": fs, "traces": tr}
        return cases

    def run(env, case):
        sigs = sorted(case["traces"][0]["cols"])
        env.write("h.csv", "#" + ",".join(sigs) + "\n")
        argv = ["--spec", "s.c2po", "--trace", "h.csv", "-o", "spec.bin"]

        def compile(fs):
            env.write("s.c2po", logic.spec_text(fs, sigs, kind))
            return env.c2po(argv)
        r, fs = e2e.compile_live(env, case["fs"], sigs, kind, compile)
        if r.rc != 0 or r.crashed or r.timeout:
            raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, logic.spec_text(fs, sigs, kind), e2e.text_tail(r.text)))
        both = e2e.check_traces(env, fs, case["traces"], sigs)
        return {"nontrivial": both and any(e2e.nest(f) for f in fs),
                "labels": e2e.spec_labels(fs, case["traces"][0]["n"])}

    return strategy, run


@st.composite
def runs(draw, names, n):
    """Columns of n steps as [length, value] runs."""
    cols = {}
    for s in names:
        seed, scale = draw(st.integers(0, 1 << 30)), draw(st.sampled_from([1, 2, 6, 30, 200, 5000] if n < 5000 else [30, 200, 5000]))
        rnd, left, v, col = random.Random(seed), n, seed & 1, []
        while left > 0:
            k = min(left, 1 + int(rnd.expovariate(1 / scale)) if scale > 1 else rnd.choice([1, 1, 1, 2, 3]))
            col.append([k, v])
            left -= k
            v = 1 - v
        cols[s] = col
    return cols


def large(kind):
    ops = gen.FT_OPS if kind == "FT" else gen.PT_OPS
    tun = [o for o in logic.UN_T if o in ops]

    @st.composite
    def cases(draw):
        mode = draw(st.sampled_from(["many", "many", "deep", "deep", "long"]))
        if mode == "many":
            sigs = ["x%d" % i for i in range(draw(st.sampled_from([4, 12, 40])))]
            fs = [draw(gen.formula(sigs, ops, 2, max_ub=draw(st.sampled_from([3, 20, 200])), consts=False)) for _ in range(draw(st.integers(10, 40)))]
            n = draw(st.integers(50, 600))
        elif mode == "deep":
            sigs, fs = SIGS, []
            for _ in range(draw(st.integers(1, 3))):
                f = draw(gen.formula(sigs, ops, 1, max_ub=3, consts=False))
                for _ in range(draw(st.integers(4, 14))):
                    op = draw(st.sampled_from(ops))
                    lb, ub = draw(gen.intervals(4))
                    other = ["a", draw(st.sampled_from(sigs))]
                    l, r = (f, other) if draw(st.booleans()) else (other, f)
                    f = ["!", f] if op == "!" else [op, lb, ub, f] if op in tun else [op, lb, ub, l, r] if op in logic.BIN_T else [op, l, r]
                fs.append(f)
            n = draw(st.integers(40, 300))
        else:
            sigs = SIGS
            ub = draw(st.sampled_from([5, 300, 700]))
            fs = [draw(gen.formula(sigs, ops, 2, max_ub=ub, consts=False, root=True)) for _ in range(draw(st.integers(1, 4)))]
            n = draw(st.sampled_from([2000, 8000, 33000, 66500]))
        return {"mode": mode, "sigs": sigs, "fs": fs, "n": n, "cols": draw(runs(sigs, n))}

    def run(env, case):
        fs, sigs, n = case["fs"], case["sigs"], case["n"]
        text = logic.spec_text(fs, sigs, kind)
        env.write("s.c2po", text)
        flat = {s: "".join(str(v) * k for k, v in c) for s, c in case["cols"].items()}
        env.write("trace.csv", "#" + ",".join(sigs) + "\n" + "\n".join(",".join(r) for r in zip(*[flat[s] for s in sigs])) + "\n")
        r = env.c2po(["--spec", "s.c2po", "--trace", "trace.csv", "-o", "spec.bin"])
        if r.rc == 11 and "constant formula" in r.text:
            raise Rejected()  # the other parts judge these
        if r.rc != 0 or r.crashed or r.timeout:
            raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
        v = e2e.verdicts(e2e.run_monitor(env))
        atoms = {s: (c, [k for k, _ in c], [x for _, x in c]) for s, c in case["cols"].items()}
        for i, f in enumerate(fs):
            ex = pw.check_columns(f, n, {s: atoms[s][1:] for s in logic.atoms(f)}, v.get(i, []), logic.wpd(f))
            if ex:
                raise Violation("formula %d  %s\n%s\n%s\ninputs (as [steps, value]): %s" % (i, logic.c2po(f), ex, text, {s: case["cols"][s] for s in logic.atoms(f)}))
        return {"nontrivial": e2e.both_values(v) and any(e2e.nest(f) for f in fs), "labels": ["mode:" + case["mode"]]}
    return cases, run


def check(prop, kind):
    strategy, run = make(kind)
    word = "future" if kind == "FT" else "past"
    return Check(prop, [
        Part("small", strategy("small"), run, 2400, 40000, "1-8 %s-time formulas sharing sub-formulas, depth <= 4, bounds <= 6, constants allowed, traces of 0-24 steps" % word),
        Part("flat", strategy("flat"), run, 1600, 20000, "1-8 %s-time formulas with one or two temporal operators, bounds <= 12, traces of 8-48 steps" % word),
        Part("wide", strategy("wide"), run, 600, 8000, "bounds <= 30, traces of 30-160 steps"),
        Part("large", *large(kind), 400, 6000, "10-40 formulas over up to 40 inputs with bounds <= 200, or nesting of up to 15 operators, or traces of up to 66500 steps with bounds <= 700; evaluation on intervals"),
    ], rule="non-trivial: a temporal formula for which the monitor reported both true and false verdicts; distinct by the whole case",
        assumptions=["reference semantics in lib/logic.py written from docs/Preliminaries/mltl.md",
                     "verdicts given before their window closed are compared with the Kleene value and with 10 continuations of the trace"])


if __name__ == "__main__":
    main(check("P01", "FT"))
