import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import random
import binary, e2e, gen, logic, pw, rich
from hypothesis import strategies as st


@st.composite
def cases(draw):
    c = draw(rich.cases(depth=draw(st.integers(1, 3)), more=True))
    c["flags"] = draw(st.sampled_from([[], [], ["--no-cse"], ["--no-rewrite"], ["--extops"], ["--extops", "--no-rewrite"], ["--scq-constant", "3"]]))
    c["aux"] = draw(st.sampled_from([True, True, False]))
    # the names of labels, contracts: any length the language allows
    c["long"] = draw(st.sampled_from([0, 0, 0, 20, 30]))
    return c


def rename(case):
    if not case["long"]:
        return case
    text = json.dumps(case)
    for _, items in rich.sections(case):
        for lab, _ in items:
            if lab:
                text = text.replace('"%s"' % lab, '"%s"' % (lab + "_" * min(case["long"], 36 - len(lab)) + "x"))
    return json.loads(text)


def run(env, case):
    case = rename(case)
    text, csv, fs, contracts, _, r = e2e.rich_compile(env, case, [] if case["aux"] else ["--no-aux"])
    try:
        d = binary.decode(env.read("spec.bin", binary=True), binary.engine_tags(REPO))
        ids = binary.well_formed(d)
    except binary.Bad as ex:
        raise Violation("ill-formed binary: %s\n%s\n%s" % (ex, text, r.out))
    listing = r.out.rstrip("\n").split("\n")
    want = d["order"] + d["aux"]
    norm = lambda l: " ".join({"False": "0", "True": "1"}.get(w, w) for w in l.split())
    if [norm(l) for l in listing] != [norm(l) for l in want]:
        raise Violation("the listing is not what the binary encodes\n%s\n--- listing\n%s\n--- binary\n%s" % (text, r.out, "\n".join(want)))
    if sorted(ids) != list(range(len(fs))):
        raise Violation("%d formulas, but the program returns %s\n%s" % (len(fs), ids, text))
    aux = d["aux"]
    if not case["aux"]:
        if aux:
            raise Violation("--no-aux, but there are names: %s" % aux)
    else:
        fn = [a.split(" ") for a in aux if a.startswith("F ")]
        cn = [a.split(" ") for a in aux if a.startswith("C ")]
        if aux != [" ".join(x) for x in fn + cn] or [x[2] for x in fn] != [str(i) for i in range(len(fs))]:
            raise Violation("auxiliary statements are not the formulas in order, then the contracts: %s\n%s" % (aux, text))
        for i, (lab, _) in enumerate(fs):
            if lab and fn[i][1] != lab:
                raise Violation("formula %d is named %s, not %s\n%s" % (i, fn[i][1], lab, text))
        if [(x[1], x[2:]) for x in cn] != [(lab, [str(first + i) for i in range(3)]) for lab, first in contracts]:
            raise Violation("contracts %s, want %s\n%s" % (cn, contracts, text))
    ops = {i[1] for i in d["bz"]} | {i[1] for i in d["tl"]}
    return {"nontrivial": len(d["tl"]) > 6 and bool(d["temp"]), "labels": ["aux:%s" % case["aux"]] + ["instr:" + o for o in sorted(ops)]}


@st.composite
def wide(draw):
    kind = draw(st.sampled_from(["FT", "FT", "PT"]))
    fs, offs = [], {1}
    top = 1 << draw(st.sampled_from([8, 16, 17, 24, 26, 28]))
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 2)):
            f, o = draw(gen.wide(gen.SIGS, kind, top))
        else:
            f, o = draw(gen.formula(gen.SIGS, gen.FT_OPS if kind == "FT" else gen.PT_OPS, consts=False)), [3]
        fs.append(f)
        offs |= set(o)
    return {"kind": kind, "fs": fs, "offs": sorted(offs), "seed": draw(st.integers(0, 1 << 30)),
            "flags": draw(st.sampled_from([[], ["--no-cse"], ["--no-rewrite"], ["--extops"], ["--extops", "--no-rewrite"], ["--no-cse", "--no-rewrite"]]))}


def run_wide(env, case):
    fs = case["fs"]
    text = logic.spec_text(fs, gen.SIGS, case["kind"])
    env.write("s.c2po", text)
    env.write("h.csv", "#" + ",".join(gen.SIGS) + "\n")
    r = env.c2po(["--spec", "s.c2po", "--trace", "h.csv", "-o", "spec.bin"] + case["flags"])
    if r.rc == 11 and "constant formula" in r.text:
        raise Rejected()  # P04 judges these
    if r.rc != 0:
        raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
    try:
        d = binary.decode(env.read("spec.bin", binary=True), binary.engine_tags(REPO))
        binary.well_formed(d)
        got = binary.formulas(d, dict(enumerate(gen.SIGS)))
    except (binary.Bad, KeyError) as ex:
        raise Violation("ill-formed binary: %s\n%s\n%s" % (ex, text, r.out))
    if sorted(got) != list(range(len(fs))):
        raise Violation("%d formulas, but the program returns %s\n%s" % (len(fs), sorted(got), text))
    rng = random.Random(case["seed"])
    seen = set()
    for _ in range(16):
        lens = [max(1, rng.choice([rng.randint(1, 4), rng.choice(case["offs"]) + rng.randint(-3, 3)])) for _ in range(rng.randint(2, 14))]
        cols = {s: pw.from_rows(lens, [rng.getrandbits(1) for _ in lens], rng.getrandbits(1)) for s in gen.SIGS}
        for i, f in enumerate(fs):
            a, b = pw.evaluate(f, cols), pw.evaluate(got[i], cols)
            differ = pw.union(pw.meet(a, pw.complement(b)) + pw.meet(b, pw.complement(a)))
            if differ:
                raise Violation("formula %d is  %s\nbut the binary encodes  %s\nthey differ at time %d on %s\n%s\n%s" % (
                    i, logic.c2po(f), logic.c2po(got[i]), differ[0][0], cols, text, r.out))
            seen |= {(i, bool(a)), (i, "not", bool(pw.complement(a)))}
    big = max([p[2] for f in fs for p in logic.walk(f) if p[0] in logic.FUTURE + logic.PAST], default=0)
    return {"nontrivial": big > 0 and all((i, True) in seen and (i, "not", True) in seen for i in range(len(fs))),
            "labels": ["kind:" + case["kind"], "bound:2^%d" % big.bit_length()]}


CHECK = Check("P13", [
    Part("binary", cases, run, 3200, 60000, "random full-language programs (several sections, contracts, labels of up to 36 characters), random options"),
    Part("encodes", wide, run_wide, 1500, 30000, "random formulas with bounds of up to 2^28; the formula the binary encodes, read back, has the truth value of the source at all times of 16 piecewise constant signal histories"),
], rule="non-trivial: more than six temporal instructions, at least one with an interval; distinct by the whole case",
    assumptions=["lib/binary.py reads the documented binary format and the instruction layouts of monitors/c/src/instructions"])

if __name__ == "__main__":
    main(CHECK)
