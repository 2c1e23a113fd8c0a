import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import e2e, gen, logic
from hypothesis import strategies as st

SIGS = e2e.SIGS
FLAGS = ["--no-rewrite", "--no-cse", "--extops", "--scq-constant 3"]
TRANSFORMS = ["to_nnf", "to_bnf", "remove_release_operators", "flatten_multi_operators", "sort_operands_by_pd",
              "optimize_rewrites", "optimize_cse", "multi_operators_to_binary", "remove_extended_operators", "compute_scq_sizes"]

# Left-hand sides of the rewriting rules, and near misses of them: ordinary random formulas
# seldom have two temporal operators with exactly the matching intervals side by side.
@st.composite
def rewritable(draw, kind):
    iv = gen.intervals(5)
    un = ["G", "F"] if kind == "FT" else ["H", "O"]
    bi = ["U", "R"] if kind == "FT" else ["S", "T"]
    at = lambda: ["a", draw(st.sampled_from(SIGS[:3]))]

    def sub():
        k = draw(st.integers(0, 5))
        if k <= 2:
            return at()
        if k == 3:
            return ["!", at()]
        if k == 4:
            return [draw(st.sampled_from(["&", "|"])), at(), at()]
        return [draw(st.sampled_from(["t", "f"]))]

    def temporal(op=None):
        op = op or draw(st.sampled_from(un + un + bi))
        lb, ub = draw(iv)
        return [op, lb, ub, sub()] if op in un else [op, lb, ub, sub(), sub()]

    def similar(x):
        """x with one thing changed, or nothing."""
        if x[0] in ("a", "t", "f", "!", "&", "|"):
            return draw(st.sampled_from([x, sub()]))
        y = list(x)
        k = draw(st.integers(0, 8))
        k = {6: 4, 7: 4, 8: 5}.get(k, k)
        if k == 0:
            y[1], y[2] = draw(iv)
        elif k == 1:
            y[3] = sub()
        elif k == 2:
            y[-1] = sub()
        elif k == 3:
            y[0] = draw(st.sampled_from(un if y[0] in un else bi))
        elif k == 4:
            lo = max(0, y[2] + draw(st.integers(-1, 2)))  # overlapping, touching, adjacent, or one step apart
            y[1], y[2] = lo, lo + draw(st.integers(0, 4))
        elif k == 5:  # bounds next to the original ones
            y[1] = max(0, y[1] + draw(st.integers(-1, 1)))
            y[2] = max(y[1], y[2] + draw(st.integers(-1, 1)))
        return y

    x = temporal()
    k = draw(st.integers(0, 8))
    if k == 0:
        phi = ["!", x]
    elif k == 1:
        phi = ["!", ["!", x]]
    elif k in (2, 3):
        two = [x, similar(x)]
        phi = [draw(st.sampled_from(["&", "|"]))] + (two if draw(st.booleans()) else two[::-1])
    elif k == 4:
        lb, ub = draw(iv)
        phi = [draw(st.sampled_from(un)), lb, ub, x]
    elif k == 5:
        lb, ub = draw(iv)
        phi = [draw(st.sampled_from(bi)), lb, ub, sub(), x]
    elif k == 6:
        phi = [draw(st.sampled_from(["->", "<->", "xor"])), x, similar(x)]
    elif k == 7:
        y = temporal()
        phi = [draw(st.sampled_from(["&", "|"])), x, y, similar(x)]
    else:
        phi = [draw(st.sampled_from(["&", "|", "->", "<->", "xor"])), ["!", x], draw(st.sampled_from([x, ["t"], ["f"], ["!", ["!", x]]]))]
    if draw(st.integers(0, 3)) == 0:
        phi = ["!", phi]
    if draw(st.integers(0, 3)) == 0:
        lb, ub = draw(iv)
        phi = [draw(st.sampled_from(un)), lb, ub, phi]
    return phi


def nnf_safe(phi, pos=True):
    """phi with every xor that to_nnf could meet under a negation turned into <->:
    !(p xor q) is a listed finding (known_findings.jsonl)."""
    op, ch = phi[0], logic.children(phi)
    if op == "xor" and not pos:
        return ["<->"] + [nnf_safe(c, False) for c in ch]
    if op in ("!", "<->", "xor", "->"):
        return logic.with_children(phi, [nnf_safe(c, op == "->" and pos and i == 1) for i, c in enumerate(ch)])
    return logic.with_children(phi, [nnf_safe(c, pos) for c in ch])


@st.composite
def cases(draw, script):
    kind = draw(st.sampled_from(["FT", "FT", "PT"]))
    ops = gen.FT_OPS if kind == "FT" else gen.PT_OPS
    k = draw(st.integers(0, 2))
    if k == 0:
        fs = draw(gen.formulas(SIGS, ops, max_formulas=6, max_depth=3, max_ub=6))
    else:
        fs = [draw(rewritable(kind)) for _ in range(draw(st.sampled_from([1, 2, 4, 8])))]
        if draw(st.booleans()):
            fs.append(gen.mutate(draw, fs[0], SIGS, ops, 5))
    c = {"kind": kind, "fs": fs, "traces": draw(gen.bool_traces(SIGS, 4, 24, 4))}
    if script:
        c["passes"] = draw(st.lists(st.sampled_from(TRANSFORMS), min_size=1, max_size=5))
        if "to_nnf" in c["passes"]:
            first = c["passes"].index("to_nnf")
            c["fs"] = [nnf_safe(f, first == 0) for f in c["fs"]]
            c["fs"] = [nnf_safe(f, first == 0) for f in c["fs"]]
    else:
        c["flags"] = sorted(draw(st.sets(st.sampled_from(FLAGS), min_size=0, max_size=3)))
    return c


def finish(env, case, argv, what):
    sigs = sorted(case["traces"][0]["cols"])
    env.write("h.csv", "#" + ",".join(sigs) + "\n")

    def compile(fs):
        env.write("s.c2po", logic.spec_text(fs, sigs, case["kind"]))
        return env.c2po(argv)
    r, fs = e2e.compile_live(env, case["fs"], sigs, case["kind"], compile)
    if r.rc != 0 or r.crashed or r.timeout or not env.exists("spec.bin"):
        raise Violation("%s: compilation failed (exit %d)\n%s\n%s" % (what, r.rc, logic.spec_text(fs, sigs, case["kind"]), e2e.text_tail(r.text)))
    return e2e.check_traces(env, fs, case["traces"], sigs, what + ": ")


def run_flags(env, case):
    extra = [w for f in case["flags"] for w in f.split()]
    both = finish(env, case, ["--spec", "s.c2po", "--trace", "h.csv", "-o", "spec.bin"] + extra, "flags %s" % extra)
    return {"nontrivial": both and any(e2e.nest(f) for f in case["fs"]),
            "labels": ["kind:" + case["kind"], "flags:" + (" ".join(extra) or "none")]}


def run_script(env, case):
    lines = ["parse_c2po s.c2po", "parse_trace h.csv", "type_check", "desugar"] + case["passes"] + \
            ["multi_operators_to_binary", "remove_extended_operators", "assemble spec.bin"]
    env.write("x.cmd", "\n".join(lines) + "\n")
    both = finish(env, case, ["--script", "x.cmd"], "passes %s" % case["passes"])
    return {"nontrivial": both and any(e2e.nest(f) for f in case["fs"]),
            "labels": ["kind:" + case["kind"]] + ["pass:" + p for p in sorted(set(case["passes"]))]}


CHECK = Check("P04", [
    Part("flags", lambda: cases(False), run_flags, 2000, 24000, "formulas built around the left-hand sides of rewriting rules, and random ones, under random subsets of %s" % FLAGS),
    Part("passes", lambda: cases(True), run_script, 2000, 24000, "the same formulas through random sequences of 1-5 transformation commands"),
], rule="non-trivial: a temporal formula for which the monitor reported both true and false verdicts; distinct by the whole case",
    assumptions=["reference semantics in lib/logic.py", "the optimised and the unoptimised program are each compared with the reference, never only with each other"])

if __name__ == "__main__":
    main(CHECK)
