import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import bz, e2e, gen, logic
from hypothesis import strategies as st

FLAGS = [[], [], ["--no-cse"], ["--no-rewrite"], ["--extops"], ["--no-cse", "--no-rewrite"]]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["FT", "PT"]))
    flags = draw(st.sampled_from(FLAGS))
    atoms = [draw(bz.expr("b", 4)) for _ in range(draw(st.integers(1, 4)))]
    if draw(st.booleans()):  # a second atom sharing operands with the first
        a = atoms[0]
        if a[0] in bz.CMP:
            atoms.append([draw(st.sampled_from(bz.CMP if bz.typ(a[1]) != "b" else ["==", "!="])), a[2], a[1]])
    if "--no-rewrite" not in flags:
        atoms = [bz.avoid_eq_false(a) for a in atoms]
    atoms = bz.rename_defs(atoms)
    names = ["A%d" % i for i in range(len(atoms))]
    ops = gen.BOOL_OPS[:3] + (["G", "F", "U", "R"] if kind == "FT" else ["H", "O", "S", "T"])
    fs = [["a", n] for n in names]
    if draw(st.booleans()):
        fs.append(draw(gen.formula(names, ops, 2, 4, consts=False, root=True)))
    if draw(st.booleans()):
        fs = fs[::-1]
    order = draw(st.permutations(sorted(bz.TYPES)))
    return {"kind": kind, "atoms": atoms, "fs": fs, "order": list(order), "flags": flags, "trace": draw(bz.trace())}


def run(env, case):
    n, cols = case["trace"]["n"], case["trace"]["cols"]
    acols = {"A%d" % i: bz.column(a, cols, n) for i, a in enumerate(case["atoms"])}
    sub = {"A%d" % i: bz.text(a) for i, a in enumerate(case["atoms"])}
    text = bz.decls() + bz.defines(case["atoms"]) + case["kind"] + "SPEC\n" + "".join("  %s;\n" % logic.c2po(f, sub=sub) for f in case["fs"])
    env.write("s.c2po", text)
    env.write("trace.csv", bz.csv(cols, case["order"], bz.TYPES, n, style=case["trace"].get("style", 0)))
    r = env.c2po(["--spec", "s.c2po", "--trace", "trace.csv", "-o", "spec.bin", "-bz"] + case["flags"])
    if r.rc == 11 and "constant formula" in r.text and any(
            len({x for x in logic.truth(f, acols, n) if x is not None}) < 2 for f in case["fs"]):
        raise Rejected()
    if r.rc != 0 or r.crashed or r.timeout:
        raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
    v = e2e.verdicts(e2e.run_monitor(env))
    try:
        e2e.check_formulas(case["fs"], acols, n, v)
    except Violation as ex:
        i = [w for w in sub]
        raise Violation("%s\nwhere %s %s\n%s" % (ex, {w: sub[w] for w in i}, bz.defines(case["atoms"]), open(env.path("trace.csv")).read()))
    ops = set()

    def walk(e):
        ops.add(e[0] + (":" + bz.typ(e[1]) if e[0] in bz.CMP or e[0] in ("+", "-", "*", "/", "neg", "abs", "pow", "prev") else ""))
        for c in e[1:]:
            if isinstance(c, list):
                walk(c)
    for a in case["atoms"]:
        walk(a)
    return {"nontrivial": any(len(set(c)) == 2 for c in acols.values()), "labels": ["kind:" + case["kind"]] + ["op:" + o for o in sorted(ops)]}


CHECK = Check("P06", [
    Part("expressions", cases, run, 2400, 30000, "1-5 Boolean booleanizer expressions (depth up to 4) and a temporal formula over them, random signal order and optimisation flags"),
], rule="non-trivial: some Boolean expression is both true and false along the trace; distinct by the whole case",
    assumptions=["reference model lib/bz.py: int is 32-bit with truncating division, float is IEEE double, tolerance 1e-5", "cases in which an operation overflows, divides by zero or gives NaN are out of domain"])

if __name__ == "__main__":
    main(CHECK)
