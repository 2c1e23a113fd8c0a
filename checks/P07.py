import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import bz, e2e, logic, rich
from hypothesis import strategies as st


@st.composite
def cases(draw):
    c = draw(rich.cases())
    c["flags"] = draw(st.sampled_from([[], [], ["--no-cse"], ["--no-rewrite"], ["--extops"]]))
    return c


def elaborate(case):
    el = rich.Elab(case)
    fs = [el.go(e) for _, e in case["fs"]]
    types = rich.sig_types(case)
    n, cols = case["trace"]["n"], case["trace"]["cols"]
    acols = {k: bz.column(a, cols, n, types) for k, a in el.atoms.items()}
    return fs, acols, types


def run(env, case):
    fs, acols, types = elaborate(case)
    n, cols, order = case["trace"]["n"], case["trace"]["cols"], case["trace"]["order"]
    if max(logic.size(f) for f in fs) > 120:
        raise Rejected()
    text = rich.program(case)
    env.write("s.c2po", text)
    csv = bz.csv(cols, order, types, n, style=case["trace"].get("style", 0))
    env.write("trace.csv", csv)
    r = env.c2po(["--spec", "s.c2po", "--trace", "trace.csv", "-o", "spec.bin"] + (["-bz"] if case["bz"] else []) + case["flags"])
    if r.rc == 11 and "constant formula" in r.text and any(
            len({x for x in logic.truth(f, acols, n) if x is not None}) < 2 for f in fs):
        raise Rejected()
    if r.rc != 0 or r.crashed or r.timeout:
        raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
    v = e2e.verdicts(e2e.run_monitor(env))
    try:
        e2e.check_formulas(fs, acols, n, v)
    except Violation as ex:
        raise Violation("%s\n%s\n%s" % (ex, text, csv))
    labs = set()

    def walk(e):
        if isinstance(e, list):
            if e and isinstance(e[0], str) and e[0] in ("agg", "acmp", "idx", "slice", "lit", "mem", "mk", "ref", "ek", "asig"):
                labs.add("node:" + e[0] + (":" + e[1] if e[0] == "agg" else ""))
            for c in e:
                walk(c)
    walk([e for _, e in case["fs"]] + [d[2] for d in case["defs"]])
    return {"nontrivial": bool(labs) and e2e.both_values(v), "labels": ["bz:%s" % case["bz"], "kind:" + case["kind"]] + sorted(labs)}


CHECK = Check("P07", [
    Part("sugar", cases, run, 2400, 30000, "random programs with arrays, slices, structs, enums, definitions, labels, set aggregation, array comparison, Boolean equality; with and without the booleanizer"),
], rule="non-trivial: some sugared construct occurs and both verdict values are seen; distinct by the whole case",
    assumptions=["elaboration oracle lib/rich.py: macro expansion, element-wise conjunction for array comparison, counting for forexactly/foratleast/foratmost"])

if __name__ == "__main__":
    main(CHECK)
