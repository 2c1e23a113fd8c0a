import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import bz, e2e, gen, logic, syntax
from hypothesis import strategies as st

# legal identifiers that look like something else
NAMES = ["p", "q", "r", "s", "prevx", "prev_1", "previous", "Gx", "F1", "U_", "true1", "falsey", "xor2", "powx", "absolute", "sqrt_", "TAU2",
         "STRUCTS", "ENUM1", "INPUTS", "FTSPECS", "foreach1", "forsome_", "a", "_", "__f0", "Mx", "x0_y", "H2", "bool1", "int_"]
KEEP = ["bool", "int", "float"]


@st.composite
def formula_cases(draw):
    kind = draw(st.sampled_from(["FT", "PT"]))
    ops = gen.FT_OPS if kind == "FT" else gen.PT_OPS
    names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=4, unique=True))
    fs = [draw(gen.formula(names, gen.BOOL_OPS + draw(gen.swarm(ops)), 4, 5)) for _ in range(draw(st.integers(1, 4)))]
    tr = draw(gen.bool_trace(names, 1, 20))
    return {"kind": kind, "fs": fs, "atoms": [], "names": names, "trace": tr, "seed": draw(st.integers(0, 1 << 30)), "mission": draw(st.integers(0, 5)),
            "redundant": draw(st.sampled_from([0, 0, 0.2]))}


@st.composite
def expr_cases(draw):
    kind = draw(st.sampled_from(["FT", "PT"]))
    atoms = bz.rename_defs([bz.avoid_eq_false(draw(bz.expr("b", 4))) for _ in range(draw(st.integers(1, 3)))])
    names = ["A%d" % i for i in range(len(atoms))]
    ops = gen.BOOL_OPS + (["G", "F", "U", "R"] if kind == "FT" else ["H", "O", "S", "T"])
    fs = [["a", n] for n in names] + [draw(gen.formula(names, ops, 3, 4, consts=False)) for _ in range(draw(st.integers(0, 2)))]
    return {"kind": kind, "fs": fs, "atoms": atoms, "names": sorted(bz.TYPES), "trace": draw(bz.trace()), "seed": draw(st.integers(0, 1 << 30)),
            "mission": draw(st.integers(0, 5)), "redundant": draw(st.sampled_from([0, 0, 0.2]))}


def run(env, case):
    n, cols, names = case["trace"]["n"], case["trace"]["cols"], case["names"]
    p = syntax.Printer("c2po", case["seed"], {"A%d" % i: a for i, a in enumerate(case["atoms"])}, case["redundant"], case["mission"])
    if case["atoms"]:
        acols = {"A%d" % i: bz.column(a, cols, n) for i, a in enumerate(case["atoms"])}
        head = bz.decls()
        defs = []

        def go(e):
            for c in e[1:]:
                if isinstance(c, list):
                    go(c)
            if e[0] == "def":
                defs.append(p.layout([e[1], ":="] + p.expr(e[2])[0] + [";"]) + "\n")
        for a in case["atoms"]:
            go(a)
        head += "DEFINE\n" + "".join(defs) if defs else ""
        csv = bz.csv(cols, names, bz.TYPES, n)
    else:
        acols = cols
        head = p.layout(["INPUT"] + [t for s in names for t in (s, ",")][:-1] + [":", "bool", ";"]) + "\n"
        csv = logic.csv_bool(cols, names, n)
    fs = case["fs"]
    text = head + case["kind"] + "SPEC\n" + "".join("  " + p.layout(p.formula(f)[0] + [";"]) + "\n" for f in fs)
    env.write("s.c2po", text)
    env.write("trace.csv", csv)
    r = env.c2po(["--spec", "s.c2po", "--trace", "trace.csv", "-o", "spec.bin", "--mission-time", case["mission"]] + (["-bz"] if case["atoms"] else []))
    if r.rc == 11 and "constant formula" in r.text and any(len({x for x in logic.truth(f, acols, n) if x is not None}) < 2 for f in fs):
        raise Rejected()
    if r.rc != 0 or r.crashed or r.timeout:
        raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
    v = e2e.verdicts(e2e.run_monitor(env))
    try:
        e2e.check_formulas(fs, acols, n, v)
    except Violation as ex:
        raise Violation("%s\n%s\n%s" % (ex, text, csv))
    return {"nontrivial": bool(e2e.both_values(v) and (case["atoms"] or any(logic.size(f) > 2 for f in fs))), "labels": ["kind:" + case["kind"]]}


CHECK = Check("P23", [
    Part("formulas", formula_cases, run, 1600, 20000, "1-4 formulas printed with only the parentheses their tree needs (or a few more), either spelling of operators, free blanks, line breaks and comments, `[b]` and `M` bounds, identifiers that resemble keywords"),
    Part("expressions", expr_cases, run, 1600, 20000, "the same for booleanizer expressions of depth up to 4 below and beside temporal operators"),
], rule="non-trivial: some formula has an operator and both verdicts are reported; distinct by the whole case",
    assumptions=["operator table of the language as declared in parse_c2po.py ('C operator precedence as a guide')", "reference semantics lib/logic.py and lib/bz.py evaluate the tree, not the text"])

if __name__ == "__main__":
    main(CHECK)
