import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import bz, e2e, gen, logic
from hypothesis import strategies as st


@st.composite
def spec(draw):
    kind = draw(st.sampled_from(["FT", "PT"]))
    ops = gen.FT_OPS if kind == "FT" else gen.PT_OPS
    big = 40 if draw(st.integers(0, 4)) == 0 else 0
    if draw(st.booleans()):
        atoms = bz.rename_defs([bz.avoid_eq_false(draw(bz.expr("b", 2))) for _ in range(draw(st.integers(1, 3)))])
        fs = draw(gen.formulas(["A%d" % i for i in range(len(atoms))], ops, max_formulas=3, max_depth=3, consts=False, big=big))
        return {"kind": kind, "atoms": atoms, "fs": fs}
    return {"kind": kind, "atoms": None, "fs": draw(gen.formulas(gen.SIGS, ops, max_formulas=4, consts=False, big=big))}


@st.composite
def cases(draw):
    specs = [draw(spec()) for _ in range(draw(st.integers(1, 3)))]
    order = list(draw(st.permutations(sorted(bz.TYPES))))
    # a history of operations on up to three monitors
    runs, ops = [], []
    cur = {}
    for _ in range(draw(st.integers(2, 7))):
        m = draw(st.integers(0, 2))
        what = draw(st.integers(0, 9))
        if m not in cur or what < 5:
            s = draw(st.integers(0, len(specs) - 1))
            reset = draw(st.sampled_from([None, None, None, "clock", "soft", "hard"]))
            cur[m] = len(runs)
            runs.append({"mon": m, "spec": s, "order": order, "parts": []})
            ops.append(["load", m, s, reset, len(runs) - 1])
        r = runs[cur[m]]
        k = draw(st.sampled_from([0, 1, 2, 3, 5, 8, 13, 30]))
        if k:
            r["parts"].append(draw(bz.trace(min_n=k, max_n=k)) if specs[r["spec"]]["atoms"] else draw(gen.bool_trace(gen.SIGS, k, k)))
            ops.append(["steps", m, cur[m], len(r["parts"]) - 1])
    return {"specs": specs, "order": order, "runs": runs, "ops": ops, "api": draw(st.integers(0, 2 ** 30)), "lazy": draw(st.booleans()), "weave": draw(st.booleans())}


def run(env, case):
    import random
    want = []
    for r in case["runs"]:
        s = case["specs"][r["spec"]]
        n = sum(p["n"] for p in r["parts"])
        names = sorted(bz.TYPES) if s["atoms"] else gen.SIGS
        cols = {x: [v for p in r["parts"] for v in p["cols"][x]] for x in names}
        want.append((n, {"A%d" % k: bz.column(e, cols, n) for k, e in enumerate(s["atoms"])} if s["atoms"] else cols))
    compiled = []
    for i, s in enumerate(case["specs"]):
        if s["atoms"]:
            sub = {"A%d" % k: bz.text(e) for k, e in enumerate(s["atoms"])}
            text = bz.decls() + bz.defines(s["atoms"]) + s["kind"] + "SPEC\n" + "".join("  %s;\n" % logic.c2po(f, sub=sub) for f in s["fs"])
            order = case["order"]
        else:
            text = logic.spec_text(s["fs"], gen.SIGS, s["kind"])
            order = gen.SIGS
        env.write("s%d.c2po" % i, text)
        env.write("h%d.csv" % i, "#" + ",".join(order) + "\n")
        r = env.c2po(["--spec", "s%d.c2po" % i, "--trace", "h%d.csv" % i, "-o", "s%d.bin" % i] + (["-bz"] if s["atoms"] else []))
        if r.rc == 11 and "constant formula" in r.text:
            raise Rejected()
        if r.rc != 0:
            raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
        compiled.append(text)
    rnd = random.Random(case["api"])
    # one stream of commands per operation, steps of different monitors interleaved
    lines, log = [], []
    last = {}

    def inputs(run, part, t):
        s = case["specs"][run["spec"]]
        types = bz.TYPES if s["atoms"] else {x: "b" for x in gen.SIGS}
        order = case["order"] if s["atoms"] else gen.SIGS
        out = []
        for i, x in enumerate(order):
            v = part["cols"][x][t]
            if case["lazy"] and last.get((run["mon"], i)) == (case["runs"].index(run), v):
                continue  # a signal that is not loaded again keeps its value
            last[(run["mon"], i)] = (case["runs"].index(run), v)
            if types[x] == "f":
                out.append(rnd.choice(["f %d %r" % (i, float(v)), "s %d %s" % (i, bz.dec(v))]))
            elif types[x] == "b":
                api = rnd.choice("bis" if s["atoms"] else "bisf")
                if api == "f":
                    out.append("f %d %s" % (i, rnd.choice(["1.0", "-2.5", "0.5"]) if v else "0.0"))
                elif api == "i" and not s["atoms"]:
                    out.append("i %d %d" % (i, rnd.choice([1, -1, 7]) if v else 0))
                else:
                    out.append("%s %d %d" % (api, i, v))
            else:
                out.append("%s %d %d" % (rnd.choice("is"), i, v))
        rnd.shuffle(out)
        return out

    queues = {0: [], 1: [], 2: []}
    for op in case["ops"]:
        m = op[1]
        if op[0] == "load":
            queues[m].append((["reset %s" % op[3]] if op[3] else []) + ["load s%d.bin" % op[2]])
            log.append(op)
        else:
            run_ = case["runs"][op[2]]
            part = run_["parts"][op[3]]
            for t in range(part["n"]):
                queues[m].append(inputs(run_, part, t) + ["step"])
        if not case["weave"]:
            for m, q in queues.items():
                for x in q:
                    lines += ["mon %d" % m] + x
                q.clear()
    while any(queues.values()):
        m = rnd.choice([m for m in queues if queues[m]])
        lines += ["mon %d" % m] + queues[m].pop(0)
    ev = e2e.drive(env, lines, kind="lib_asan")
    # verdicts per run: what monitor m said between two of its loads
    cur, got = {}, {}
    todo = {m: [op[4] for op in case["ops"] if op[0] == "load" and op[1] == m] for m in range(3)}
    for e in ev:
        if e[0] == "L":
            if e[2] != 0:
                raise Violation("loading a valid specification failed: %s" % (e,))
            cur[e[1]] = todo[e[1]].pop(0)
        elif e[0] == "S":
            if e[2] != 0:
                raise Violation("a step failed: %s" % (e,))
        else:
            got.setdefault(cur[e[1]], {}).setdefault(e[2], []).append((e[3], e[4]))
    both = False
    for i, r in enumerate(case["runs"]):
        s = case["specs"][r["spec"]]
        n, acols = want[i]
        v = got.get(i, {})
        try:
            e2e.check_formulas(s["fs"], acols, n, v)
        except Violation as ex:
            raise Violation("run %d (monitor %d, load of specification %d): %s\n%s\nhistory: %s" % (
                i, r["mon"], r["spec"], ex, compiled[r["spec"]], " ; ".join(lines)))
        both = both or e2e.both_values(v)
    reloads = len(case["runs"]) - len({r["mon"] for r in case["runs"]})
    return {"nontrivial": both and len([r for r in case["runs"] if r["parts"]]) > 1,
            "labels": ["reloads:%d" % reloads, "monitors:%d" % len({r["mon"] for r in case["runs"]}), "bz:%s" % sorted({bool(s["atoms"]) for s in case["specs"]}), "weave:%s" % case["weave"]]}


CHECK = Check("P20", [
    Part("histories", cases, run, 1500, 25000, "1-3 specifications, with or without the booleanizer; histories of loads, resets, inputs through every loading function, and steps on three monitors, in sequence or interleaved step by step"),
], kinds=("lib_asan",), rule="at least two loads followed by steps, and both verdict values seen; distinct by the whole case",
    assumptions=["a value is loaded through the functions its declared type allows; in a boolean specification without the booleanizer, through all of them"])

if __name__ == "__main__":
    main(CHECK)
