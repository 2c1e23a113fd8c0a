import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import e2e, gen, logic
import P04
from hypothesis import strategies as st

SIGS = e2e.SIGS


def bad_nnf(phi):
    for p in logic.walk(phi):
        if p[0] == "!" and p[1][0] not in ("a", "t", "f"):
            return "a negation of a non-literal"
        if p[0] in ("->", "xor"):
            return "the operator " + p[0]


def only(ops):
    def bad(phi):
        for p in logic.walk(phi):
            if p[0] not in ops + ("a", "t", "f"):
                return "the operator " + p[0]
    return bad


def bad_binary(phi):
    for p in logic.walk(phi):
        if p[0] in ("&", "|") and len(p) != 3:
            return "an operator with %d operands" % (len(p) - 1)


def bad_ext(phi):
    for p in logic.walk(phi):
        if p[0] in ("xor", "->", "F", "G", "O", "H"):
            return "the operator " + p[0]
    return bad_binary(phi)


def bad_release(phi):
    for p in logic.walk(phi):
        if p[0] == "R":
            return "the operator R"


# command -> (is the shape broken?, sections it is documented for)
FORMS = {
    "to_nnf": (bad_nnf, ("FT",)),
    "to_bnf": (only(("!", "&", "U")), ("FT",)),
    "remove_extended_operators": (bad_ext, ("FT", "PT")),
    "remove_release_operators": (bad_release, ("FT", "PT")),
    "multi_operators_to_binary": (bad_binary, ("FT", "PT")),
    "flatten_multi_operators": (lambda p: None, ("FT", "PT")),
    "sort_operands_by_pd": (lambda p: None, ("FT", "PT")),
    "optimize_rewrites": (lambda p: None, ("FT", "PT")),
    "optimize_cse": (lambda p: None, ("FT", "PT")),
}


WEIGHTED = ["to_nnf", "remove_extended_operators", "to_bnf", "remove_release_operators", "to_nnf", "optimize_rewrites", "to_bnf",
            "multi_operators_to_binary", "flatten_multi_operators", "sort_operands_by_pd", "optimize_cse"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["FT", "FT", "PT"]))
    ops = gen.FT_OPS if kind == "FT" else gen.PT_OPS
    ops = ops + ["!"] * 4 + ["->", "<->", "xor", "&", "|"]
    fs = draw(gen.formulas(SIGS, ops, max_formulas=8, max_depth=4, max_ub=6))
    cmds = draw(st.lists(st.sampled_from([c for c in WEIGHTED if kind in FORMS[c][1]]), min_size=1, max_size=4, unique=True))
    if "to_nnf" in cmds:
        fs = [P04.nnf_safe(P04.nnf_safe(f)) for f in fs]
    return {"kind": kind, "fs": fs, "cmds": cmds, "traces": [draw(gen.bool_trace(SIGS, 16, 24)) for _ in range(3)]}


def run(env, case):
    fs = case["fs"]
    env.write("s.c2po", logic.spec_text(fs, SIGS, case["kind"]))
    env.write("x.cmd", "".join("parse_c2po s.c2po\ntype_check\ndesugar\necho BEGIN\n%s\nprint_prefix\n" % c for c in case["cmds"]))
    r = env.c2po(["--script", "x.cmd"])
    if r.rc != 0 or r.crashed or r.timeout:
        raise Violation("%s failed (exit %d) on\n%s\n%s" % (case["cmds"], r.rc, logic.spec_text(fs, SIGS, case["kind"]), e2e.text_tail(r.text)))
    outs = r.out.split("BEGIN\n")[1:]
    if len(outs) != len(case["cmds"]):
        raise Violation("%d of %d commands ran\n%s" % (len(outs), len(case["cmds"]), e2e.text_tail(r.text)))
    labels = ["kind:" + case["kind"]]
    any_changed = False
    for cmd, out in zip(case["cmds"], outs):
        changed = check_one(fs, cmd, out, case["traces"])
        any_changed |= changed
        labels.append(cmd + (":changed" if changed else ":same"))
    return {"nontrivial": any_changed, "labels": labels}


def check_one(fs, cmd, out, traces):
    lines = [l for l in out.split("\n") if l.strip()]
    if len(lines) != len(fs):
        raise Violation("%s left %d formulas of %d" % (cmd, len(lines), len(fs)))
    changed = False
    for f, l in zip(fs, lines):
        try:
            g = logic.parse_prefix(l)
        except (ValueError, KeyError, IndexError) as e:
            raise Violation("unreadable print_prefix line %r (%r)" % (l, e))
        bad = FORMS[cmd][0](g)
        if bad:
            raise Violation("%s of %s leaves %s: %s" % (cmd, logic.c2po(f), bad, logic.c2po(g)))
        changed |= json.dumps(f) != json.dumps(g)
        m = max(logic.wpd(f), logic.wpd(g))
        for tr in traces:
            n = tr["n"]
            for ext in logic.extensions(tr["cols"], n, m, range(2)):
                a = logic.evaluate(f, ext, n + m, n + m + 1)[:n]
                b = logic.evaluate(g, ext, n + m, n + m + 1)[:n]
                if a != b:
                    t = [x != y for x, y in zip(a, b)].index(True)
                    raise Violation("%s turns %s into %s, which differs at time %d of %s" % (cmd, logic.c2po(f), logic.c2po(g), t, ext))
    return changed


CHECK = Check("P24", [
    Part("shape", cases, run, 5000, 60000, "1-8 formulas with many negations, implications and equivalences through 1-4 conversion commands each, read back from print_prefix"),
], kinds=(), rule="non-trivial: the command changed some formula; distinct by the whole case",
    assumptions=["the printed formula is what later commands see (P04 checks the compiled one)", "equivalence is tested on 18 continuations of generated traces per formula"])

if __name__ == "__main__":
    main(CHECK)
