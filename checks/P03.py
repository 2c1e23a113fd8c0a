import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import e2e, gen, logic
from hypothesis import strategies as st

SIGS = e2e.SIGS


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["FT", "PT"]))
    ops = gen.FT_OPS if kind == "FT" else gen.PT_OPS
    deep = draw(st.booleans())
    if deep:
        fs = draw(gen.formulas(SIGS, ops, max_formulas=3, max_depth=4, max_ub=6))
    else:
        fs = draw(gen.formulas(SIGS, ops, max_formulas=3, max_depth=2, max_ub=12, consts=False))
    tr = draw(gen.bool_trace(SIGS, 1, 32))
    return {"kind": kind, "fs": fs, "trace": tr}


def streamed(env, spec, cols, sigs, n):
    lines = ["load " + spec]
    for t in range(n):
        lines += e2e.step_lines(cols, sigs, t)
    steps, cur = [], []
    for e in e2e.drive(env, lines):
        if e[0] == "V":
            cur.append(e[2:])
        elif e[0] == "S":
            if e[2] != 0:
                raise Violation("r2u2_step returned %d on an ordinary input" % e[2])
            steps.append(cur)
            cur = []
        elif e[2] != 0:
            raise Violation("r2u2_load_specification returned %d" % e[2])
    if cur or len(steps) != n:
        raise Violation("%d steps reported for %d inputs" % (len(steps), n))
    return steps


def run_stream(env, case):
    """Step by step through the library: what is reported after each input."""
    fs, n, cols = case["fs"], case["trace"]["n"], case["trace"]["cols"]
    sigs = sorted(cols)
    env.write("trace.csv", logic.csv_bool(cols, sigs, n))
    e2e.compile_formulas(env, fs, sigs, case["kind"])
    steps = streamed(env, "spec.bin", cols, sigs, n)
    nxt = [0] * len(fs)
    w = [logic.wpd(f) for f in fs]
    early = delayed = 0
    for k, vs in enumerate(steps):
        seen = {}
        for fid, t, b in vs:
            if not 0 <= fid < len(fs):
                raise Violation("verdict for formula id %d, which the specification does not have" % fid)
            if t < nxt[fid]:
                raise Violation("formula %d %s: verdict for time %d after everything up to %d was reported" % (fid, logic.c2po(fs[fid]), t, nxt[fid] - 1))
            for x in range(nxt[fid], t + 1):
                seen.setdefault(fid, {})[x] = b
            if t > k - w[fid]:
                early += 1
            nxt[fid] = t + 1
        for fid, f in enumerate(fs):
            if nxt[fid] < k - w[fid] + 1:
                raise Violation("formula %d %s: after input %d no verdict for time %d, whose window ended at %d" % (fid, logic.c2po(f), k, nxt[fid], nxt[fid] + w[fid]))
        for fid, got in seen.items():
            f = fs[fid]
            K = logic.evaluate(f, cols, k + 1, k + 1 + w[fid])
            late = []
            for t, b in got.items():
                v = K[t] if t < k + 1 else None
                if v is None:
                    late.append((t, b))
                elif v != int(b):
                    raise Violation("formula %d %s: verdict %s for time %d after input %d is wrong" % (fid, logic.c2po(f), b, t, k))
            if late:
                hi = max(t for t, _ in late)
                m = max(0, hi + w[fid] - k)
                for ext in logic.extensions(cols, k + 1, m, range(4)):
                    full = logic.evaluate(f, ext, k + 1 + m, k + 1 + m + w[fid])
                    for t, b in late:
                        if full[t] is not None and full[t] != int(b):
                            raise Violation("formula %d %s: verdict %s for time %d was given after input %d, but later inputs can contradict it" % (fid, logic.c2po(f), b, t, k))
    # the command-line monitor reports the same stream
    m = e2e.run_monitor(env)
    cli = e2e.verdicts(m)
    lib = {}
    for vs in steps:
        for fid, t, b in vs:
            lib.setdefault(fid, []).append((t, b))
    if cli != lib:
        raise Violation("the command-line monitor and the stepped library disagree: %s vs %s" % (cli, lib))
    both = any(len({b for _, b in s}) == 2 for s in lib.values())
    return {"nontrivial": both and max(w + [0]) + (case["kind"] == "PT") > 0,
            "labels": ["kind:" + case["kind"], "early-verdicts" if early else "no-early-verdicts"] + e2e.spec_labels(fs, n)}


@st.composite
def indep_cases(draw):
    c = draw(cases())
    if len(c["fs"]) == 1:
        ops = gen.FT_OPS if c["kind"] == "FT" else gen.PT_OPS
        c["fs"].append(gen.mutate(draw, c["fs"][0], SIGS, ops))
    return c


def run_indep(env, case):
    """Adding formulas to a specification changes nothing about the others' verdicts."""
    fs, n, cols = case["fs"], case["trace"]["n"], case["trace"]["cols"]
    sigs = sorted(cols)
    env.write("trace.csv", logic.csv_bool(cols, sigs, n))
    e2e.compile_formulas(env, fs, sigs, case["kind"])
    whole = e2e.verdicts(e2e.run_monitor(env))
    both = False
    for i, f in enumerate(fs):
        e2e.compile_formulas(env, [f], sigs, case["kind"], name="one.c2po", out="one.bin")
        one = e2e.verdicts(e2e.run_monitor(env, "one.bin"))
        try:
            a, b = logic.expand(whole.get(i, [])), logic.expand(one.get(0, []))
        except ValueError as e:
            raise Violation(str(e))
        for t in set(a) & set(b):
            if a[t] != b[t]:
                raise Violation("formula %d %s at time %d: %s next to the other formulas, %s alone" % (i, logic.c2po(f), t, a[t], b[t]))
        need = n - logic.wpd(f)
        for name, d in (("next to the other formulas", a), ("alone", b)):
            if any(t not in d for t in range(need)):
                raise Violation("formula %d %s lacks verdicts %s although their windows are over" % (i, logic.c2po(f), name))
        both |= len(set(a.values())) == 2
    return {"nontrivial": both, "labels": ["kind:" + case["kind"], "formulas:%d" % len(fs)]}


@st.composite
def mixed_cases(draw):
    """Both sections in one file, sharing sub-formulas and inputs."""
    ft = draw(gen.formulas(SIGS, gen.FT_OPS, max_formulas=2, max_depth=3, max_ub=6, consts=False))
    pt = draw(gen.formulas(SIGS, gen.PT_OPS, max_formulas=2, max_depth=3, max_ub=6, consts=False))
    if draw(st.booleans()):
        b = draw(gen.formula(SIGS, gen.BOOL_OPS, 2, consts=False))
        lb, ub = draw(gen.intervals(6))
        ft.append(["F", lb, ub, b])
        lb, ub = draw(gen.intervals(6))
        pt.append([draw(st.sampled_from(["O", "H"])), lb, ub, b])
    return {"ft": ft, "pt": pt, "order": draw(st.sampled_from(["FP", "PF"])), "trace": draw(gen.bool_trace(SIGS, 1, 28))}


def run_mixed(env, case):
    ft, pt, n, cols = case["ft"], case["pt"], case["trace"]["n"], case["trace"]["cols"]
    sigs = sorted(cols)
    env.write("trace.csv", logic.csv_bool(cols, sigs, n))
    secs = {"F": ("FTSPEC", ft), "P": ("PTSPEC", pt)}
    text = "INPUT\n  %s: bool;\n" % ", ".join(sigs)
    order = []
    for s in case["order"]:
        text += "%s\n" % secs[s][0] + "".join("  %s;\n" % logic.c2po(f) for f in secs[s][1])
        order += secs[s][1]
    env.write("s.c2po", text)
    r = env.c2po(["--spec", "s.c2po", "--trace", "trace.csv", "-o", "spec.bin"])
    if e2e.constant_reject(env, r, order, sigs, "FT"):
        raise Rejected()
    if r.rc != 0 or r.crashed:
        raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
    v = e2e.verdicts(e2e.run_monitor(env))
    e2e.check_formulas(order, cols, n, v)
    return {"nontrivial": e2e.both_values(v), "labels": ["order:" + case["order"]]}


CHECK = Check("P03", [
    Part("stream", cases, run_stream, 1600, 24000, "1-3 future-time or past-time formulas, stepped through the library one input at a time"),
    Part("independence", indep_cases, run_indep, 500, 8000, "2-4 formulas, together and one at a time"),
    Part("both-sections", mixed_cases, run_mixed, 700, 8000, "a future-time and a past-time section in one file, shared sub-formulas"),
], kinds=("release", "lib"),
    rule="non-trivial: some formula got both true and false verdicts (stream: and its verdicts depend on more than the current input); distinct by the whole case",
    assumptions=["reference semantics in lib/logic.py written from docs/Preliminaries/mltl.md; propagation delay = sum of upper bounds of nested future operators"])

if __name__ == "__main__":
    main(CHECK)
