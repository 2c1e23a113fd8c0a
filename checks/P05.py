import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import re
import binary, bz, e2e, gen, logic, pw, rich
from hypothesis import strategies as st

OPTS = [[], [], ["--no-cse"], ["--no-rewrite"], ["--extops"], ["--scq-constant", "2"]]


@st.composite
def rich_cases(draw):
    c = draw(rich.cases(depth=draw(st.integers(1, 3)), more=True))
    c["flags"] = draw(st.sampled_from(OPTS))
    extra(draw, c)
    return c


def extra(draw, c):
    """Inputs that the specification does not mention, and a signal map with gaps instead of the header."""
    c["aux"] = draw(st.booleans())
    c["map"] = None
    sigs = c["trace"]["order"]
    if draw(st.booleans()):
        width = len(sigs) + draw(st.integers(0, 6))
        c["map"] = {"width": width, "at": list(draw(st.permutations(range(width))))[:len(sigs)], "unknown": draw(st.integers(0, 1))}
    else:
        c["pad"] = draw(st.integers(0, 2))


@st.composite
def plain_cases(draw):
    """Deep and wide temporal formulas: many queue slots."""
    kind = draw(st.sampled_from(["FT", "PT"]))
    fs = draw(gen.formulas(gen.SIGS, gen.FT_OPS if kind == "FT" else gen.PT_OPS, max_formulas=6, big=30, consts=False))
    tr = draw(gen.bool_trace(gen.SIGS, 1, 30))
    c = {"plain": True, "kind": kind, "fs": fs, "bz": draw(st.booleans()), "flags": draw(st.sampled_from(OPTS)),
         "trace": {"n": tr["n"], "cols": tr["cols"], "order": list(draw(st.permutations(gen.SIGS)))}}
    extra(draw, c)
    return c


def cases():
    return st.one_of(rich_cases(), plain_cases())


def prepare(env, case, out="b.h"):
    """-> (program text, csv text, formulas, atom columns, formula numbers are file order)"""
    n, cols, order = case["trace"]["n"], case["trace"]["cols"], case["trace"]["order"]
    if case.get("plain"):
        text = logic.spec_text(case["fs"], gen.SIGS, case["kind"])
        fs, acols, types = case["fs"], cols, {s: "b" for s in gen.SIGS}
    else:
        el = rich.Elab(case)
        fs = [f for _, f in el.formulas()[0]]
        types = rich.sig_types(case)
        acols = {k: bz.column(a, cols, n, types) for k, a in el.atoms.items()}
        text = rich.program(case)
        if max(logic.size(f) for f in fs) > 120:
            raise Rejected()
    cell = lambda s, t: bz.dec(cols[s][t]) if types[s] == "f" else "%d" % cols[s][t]
    if case["map"]:
        at = dict(zip(order, case["map"]["at"]))
        width = case["map"]["width"]
        env.write("m.map", "".join("%s:%d\n" % (s, at[s]) for s in order) + ("nosuch:0\n" if case["map"]["unknown"] else ""))
        src = ["--map", "m.map"]
        width = max(at.values()) + 1  # columns after the last one named are not part of the trace
        head = ""
        row = lambda t: ",".join({i: cell(s, t) for s, i in at.items()}.get(c, "0") for c in range(width))
    else:
        names = order + ["unused%d" % i for i in range(case["pad"])]
        head = "#" + ",".join(names) + "\n"
        src = ["--trace", "trace.csv"]
        row = lambda t: ",".join([cell(s, t) for s in order] + ["1"] * case["pad"])
    csv = head + "".join(row(t) + "\n" for t in range(n))
    env.write("s.c2po", text)
    env.write("trace.csv", csv)
    argv = ["--spec", "s.c2po"] + src + ["-o", "spec.bin", "--write-bounds", out] + (["-bz"] if case["bz"] else []) + case["flags"]
    if not case["aux"]:
        argv.append("--no-aux")
    r = env.c2po(argv)
    if r.rc in (5, 11) and "constant formula" in r.text and any(
            len({x for x in logic.truth(f, acols, n) if x is not None}) < 2 for f in fs):
        raise Rejected()
    if r.rc != 0 or r.crashed or r.timeout or not env.exists(out):
        raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
    return text, csv, fs, acols


def read_h(env):
    return {k: v for k, v in re.findall(r"^\s*#define\s+(\w+)\s+(\S+)\s*$", env.read("b.h"), re.M)}


def run_sizes(env, case):
    text, csv, fs, acols = prepare(env, case, case["first"])
    t2, _, _, _ = prepare(env, case, "b.toml" if case["first"] == "b.h" else "b.h")
    h = read_h(env)
    toml = dict(re.findall(r'^(\w+)\s*=\s*\{\s*value\s*=\s*"([^"]*)"', env.read("b.toml"), re.M))
    try:
        need = binary.needs(binary.decode(env.read("spec.bin", binary=True), binary.engine_tags(REPO)))
    except binary.Bad as ex:
        raise Violation("ill-formed binary: %s\n%s" % (ex, text))
    ncols = max(l.count(",") + 1 for l in csv.split("\n") if l and l[0] != "#") if case["trace"]["n"] else 0
    where = "R2U2_MAX_SIGNALS" if case["bz"] else "R2U2_MAX_ATOMICS"
    need[where] = max(need[where], ncols)  # the CSV reader loads every column
    what = "\n%s\n%s\n" % (text, csv)
    for k, v in need.items():
        for name, b in (("b.h", h), ("b.toml", toml)):
            if k not in b:
                if name == "b.h" or k in ("R2U2_MAX_SIGNALS", "R2U2_MAX_ATOMICS", "R2U2_MAX_BZ_INSTRUCTIONS", "R2U2_MAX_TL_INSTRUCTIONS",
                                          "R2U2_MAX_QUEUE_SLOTS", "R2U2_AUX_MAX_FORMULAS", "R2U2_AUX_MAX_CONTRACTS"):
                    raise Violation("%s does not define %s%s" % (name, k, what))
                continue
            if int(b[k]) < v:
                raise Violation("%s has %s = %s, the program needs %d%s" % (name, k, b[k], v, what))
            if name == "b.h" and int(b[k]) < 1:
                raise Violation("%s has %s = %s, which is no array extent%s" % (name, k, b[k], what))
    if float(h["R2U2_FLOAT_EPSILON"]) != 0.00001:
        raise Violation("b.h has R2U2_FLOAT_EPSILON %s" % h["R2U2_FLOAT_EPSILON"])
    return {"nontrivial": need["R2U2_MAX_QUEUE_SLOTS"] > need["R2U2_MAX_TL_INSTRUCTIONS"] or need["R2U2_MAX_BZ_INSTRUCTIONS"] > 4,
            "labels": ["bz:%s" % case["bz"], "map:%s" % bool(case["map"]), "aux:%s" % case["aux"]]}


@st.composite
def size_cases(draw):
    c = draw(cases())
    c["first"] = draw(st.sampled_from(["b.h", "b.toml"]))
    return c


def run_built(env, case):
    text, csv, fs, acols = prepare(env, case)
    src = os.path.join(env.root, "src")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(REPO, "monitors", "c", "src"), src)
    shutil.copy(env.path("b.h"), os.path.join(src, "internals", "bounds.h"))
    bounds = env.read("b.h")
    flags = ["-fsanitize=address", "-g"] + (["-DR2U2_AUX_STRING_SPECS=1"] if case["aux"] else [])
    build(env, src, flags, bounds)
    env.calls["monitor"] += 1
    m = env.run([env.path("mon"), "spec.bin", "trace.csv"], env={**C_ENV, "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0"})
    what = "\n%s\n%s\n%s\n" % (text, csv, bounds)
    if m.rc != 0 or m.timeout:
        raise Violation("the monitor built with the computed bounds failed (exit %d): %s%s" % (m.rc, e2e.text_tail(m.err, 1500), what))
    ref = e2e.run_monitor(env, kind="aux" if case["aux"] else "release")
    if m.out != ref.out:
        raise Violation("the monitor built with the computed bounds prints other verdicts%s--- computed bounds\n%s\n--- default bounds\n%s" % (what, m.out, ref.out))
    if not case["aux"]:
        try:
            e2e.check_formulas(fs, acols, case["trace"]["n"], e2e.verdicts(m))
        except Violation as ex:
            raise Violation("%s%s" % (ex, what))
    return {"nontrivial": "T\n" in m.out and "F\n" in m.out, "labels": ["bz:%s" % case["bz"], "map:%s" % bool(case["map"]), "aux:%s" % case["aux"]]}


@st.composite
def large_cases(draw):
    """Programs that the default bounds do not hold."""
    kind = draw(st.sampled_from(["FT", "PT"]))
    ops = gen.FT_OPS if kind == "FT" else gen.PT_OPS
    k = draw(st.sampled_from([5, 100, 300, 420]))
    sigs = ["x%d" % i for i in range(k)]
    few = draw(st.lists(st.sampled_from(sigs), min_size=4, max_size=4, unique=True)) if draw(st.integers(0, 3)) == 0 else sigs
    count = draw(st.sampled_from([3, 70, 140, 280]))
    ub = draw(st.sampled_from([3, 10, 300, 3000] if count < 100 else [3, 10, 100]))
    fs = [draw(gen.formula(few, ops, 1 if count > 100 else 2, max_ub=ub, consts=False, root=draw(st.booleans()))) for _ in range(count)]
    n = draw(st.integers(20, 60)) if draw(st.booleans()) or ub < 300 else draw(st.integers(20, 3 * ub))
    return {"kind": kind, "k": k, "fs": fs, "n": n, "seed": draw(st.integers(0, 1 << 30)), "bz": draw(st.booleans()), "aux": draw(st.booleans()), "long": draw(st.sampled_from([0, 0, 40])),
            "mode": draw(st.sampled_from(["header", "map", "gaps"])), "flags": draw(st.sampled_from(OPTS))}


def run_large(env, case):
    import random
    rnd = random.Random(case["seed"])
    sigs, fs, n = ["x%d" % i for i in range(case["k"])], case["fs"], case["n"]
    order = list(sigs)
    rnd.shuffle(order)
    if case["mode"] == "gaps":
        order = [x for s in order for x in [None] * rnd.choice([0, 0, 1, 5]) + [s]]
    cols, cells = {}, {}
    for s in sigs:
        lens = []
        while sum(lens) < n:
            lens.append(min(n - sum(lens), 1 + int(rnd.expovariate(1 / rnd.choice([1, 3, 20, 300])))))
        cols[s] = (lens, [rnd.getrandbits(1) for _ in lens])
        cells[s] = "".join(str(v) * m for m, v in zip(*cols[s]))
    names = ["f%d_%s" % (i, "x" * case["long"]) for i in range(len(fs))]
    text = logic.spec_text(fs, sigs, case["kind"], names=names)
    env.write("s.c2po", text)
    head = "#" + ",".join(s or "u%d" % i for i, s in enumerate(order)) + "\n" if case["mode"] == "header" else ""
    env.write("trace.csv", head + "".join(",".join(cells[s][t] if s else "0" for s in order) + "\n" for t in range(n)))
    if case["mode"] != "header":
        env.write("m.map", "".join("%s:%d\n" % (s, i) for i, s in enumerate(order) if s))
    r = env.c2po(["--spec", "s.c2po", "-o", "spec.bin", "--write-bounds", "b.h"] + (["--trace", "trace.csv"] if head else ["--map", "m.map"]) + (["-bz"] if case["bz"] else []) + ([] if case["aux"] else ["--no-aux"]) + case["flags"], timeout=120)
    if r.rc in (5, 11) and "constant formula" in r.text:
        raise Rejected()
    if r.rc != 0 or r.crashed or r.timeout or not env.exists("b.h"):
        raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
    bounds = env.read("b.h")
    src = os.path.join(env.root, "src")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(REPO, "monitors", "c", "src"), src)
    shutil.copy(env.path("b.h"), os.path.join(src, "internals", "bounds.h"))
    build(env, src, ["-fsanitize=address", "-g"] + (["-DR2U2_AUX_STRING_SPECS=1"] if case["aux"] else []), bounds)
    env.calls["monitor"] += 1
    m = env.run([env.path("mon"), "spec.bin", "trace.csv"], env={**C_ENV, "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0"}, timeout=120)
    what = "\n%s\n%s\n" % (text, bounds)
    if m.rc != 0 or m.timeout:
        raise Violation("the monitor built with the computed bounds failed (exit %d): %s%s" % (m.rc, e2e.text_tail(m.err, 1500), what))
    out = m.out
    if case["aux"]:
        num = {x: i for i, x in enumerate(names)}
        try:
            out = "\n".join("%d:%s" % (num[l.split(":")[0]], l.split(":", 1)[1]) for l in out.split("\n") if l)
        except KeyError as ex:
            raise Violation("a verdict line is named %s, which is no formula%s" % (ex, what))
    try:
        v = logic.parse_verdicts(out)
    except ValueError as ex:
        raise Violation("unreadable monitor output line: %s%s" % (ex, what))
    for i, f in enumerate(fs):
        ex = pw.check_columns(f, n, {a: cols[a] for a in logic.atoms(f)}, v.get(i, []), logic.wpd(f))
        if ex:
            raise Violation("formula %d  %s\n%s\ninputs: %s%s" % (i, logic.c2po(f), ex, {a: cells[a] for a in logic.atoms(f)}, what))
    d = dict(re.findall(r"#define\s+(\w+)\s+(\d+)\s*$", bounds, re.M))
    over = [k for k, x in e2e.capacity()[0].items() if int(d.get(k, 0)) > x]
    return {"nontrivial": bool(over) and e2e.both_values(v), "labels": ["beyond the default " + k for k in over] + ["mode:" + case["mode"], "bz:%s" % case["bz"]]}


def build(env, src, flags, bounds):
    import glob
    files = sorted(glob.glob(os.path.join(src, "**", "*.c"), recursive=True))
    incs = []
    for r, _, _ in os.walk(src):
        incs += ["-I", r]
    env.write("all.c", "".join('#include "%s"\n' % f for f in files))
    base = ["gcc", "-O0"] + BASE_FLAGS + flags + incs
    # one translation unit is twice as fast; if its parts do not go together, build them separately
    for srcs in (["all.c"], files):
        p = subprocess.run(base + srcs + ["-o", "mon", "-lm"], cwd=env.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return
    raise Violation("the monitor does not build with the computed bounds\n%s\n%s" % (bounds, p.stdout[-2000:]))


CHECK = Check("P05", [
    Part("sizes", size_cases, run_sizes, 900, 20000, "random full-language programs and wide temporal specifications; signal order from the header, with unused columns, or from a map with gaps; random options; both bounds formats compared with what the decoded binary needs"),
    Part("built", cases, run_built, 450, 12000, "the same; the monitor is built with the bounds file and AddressSanitizer and its output compared with the reference model and with the default build"),
    Part("large", large_cases, run_large, 48, 1500, "programs of up to 280 formulas, 420 inputs and bounds of up to 3000, which exceed the default bounds: the monitor built with the bounds file against an evaluation on intervals"),
], kinds=("release", "aux"), rule="sizes: some queue has several slots or there are more than four BZ instructions; built: both verdict values are printed; large: some default bound is exceeded, and both verdict values are printed; distinct by the whole case",
    assumptions=["gcc -fsanitize=address reports accesses outside the monitor's arrays"])

if __name__ == "__main__":
    main(CHECK)
