import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import re
import bz, e2e, logic, rich
from hypothesis import strategies as st


@st.composite
def cases(draw):
    c = draw(rich.cases(depth=draw(st.integers(1, 2)), more=True))
    sigs = list(rich.sig_types(c))
    src = draw(st.sampled_from(["generated", "generated", "map", "trace"]))
    if src == "map":
        ids = draw(st.lists(st.integers(0, len(sigs) + 4), min_size=len(sigs), max_size=len(sigs), unique=True))
        c["map"] = [[s, i] for s, i in zip(draw(st.permutations(sigs)), ids)] + draw(st.sampled_from([[], [["other", len(sigs) + 6]], [["other", len(sigs) + 5], ["p0", len(sigs) + 9]]]))
    elif src == "trace":
        c["map"] = draw(st.permutations(sigs + draw(st.sampled_from([[], ["other"], ["z1", "z2"]]))))
    c["src"] = src
    lo = draw(st.integers(-6, 6))
    c["gen"] = {"n": draw(st.integers(1, 12)), "lo": lo + draw(st.sampled_from([0, 0, 0.5])), "hi": lo + draw(st.integers(1, 8)), "seed": draw(st.sampled_from([None, 0, 1, 77, 123456])), "prec": draw(st.sampled_from([None, 1, 2, 6]))}
    c["run"] = {"print": draw(st.booleans()), "n": draw(st.sampled_from([None, 1, 2])), "early": draw(st.booleans())}
    return c


def run(env, c):
    el = rich.Elab(c)
    fs = [f for _, f in el.formulas()[0]]
    if max(logic.size(f) for f in fs) > 200:
        raise Rejected()
    types = rich.sig_types(c)
    text = rich.program(c)
    env.write("a.c2po", text)
    gen = c["gen"]
    ls = ["enable_booleanizer"] if c["bz"] else []
    ls += ["parse_c2po a.c2po"]
    if c["src"] == "map":
        env.write("m.map", "".join("%s:%d\n" % (s, i) for s, i in c["map"]))
        ls += ["parse_map m.map"]
    elif c["src"] == "trace":
        env.write("h.csv", "#" + ",".join(c["map"]) + "\n")
        ls += ["parse_trace h.csv"]
    ls += ["type_check", "desugar", "generate_map --output g.map"]
    g = "generate_trace --output g.csv --print%s%s -- %d %s %s" % (
        "" if gen["seed"] is None else " --seed %d" % gen["seed"], "" if gen["prec"] is None else " --float-precision %d" % gen["prec"], gen["n"], gen["lo"], gen["hi"])
    asm = ["multi_operators_to_binary", "remove_extended_operators", "assemble spec.bin"]
    ls += ["echo @@gen", g, "echo @@"] + asm if c["run"]["early"] else asm + ["echo @@gen", g, "echo @@"]
    os.makedirs(env.path("r2/build"))
    os.symlink(env.bins["release"], env.path("r2/build/r2u2"))
    ls += ["echo @@run", "run_r2u2 spec.bin g.csv --r2u2dir r2 --output out.txt%s%s" % (" --print" if c["run"]["print"] else "", "" if c["run"]["n"] is None else " --num-runs %d" % c["run"]["n"]), "echo @@end"]
    env.write("run.cmd", "\n".join(ls) + "\n")
    r = env.c2po(["--script", "run.cmd"])
    what = "\n--- a.c2po\n%s--- script\n%s\n" % (text, "\n".join(ls))
    if r.crashed or r.timeout:
        raise Violation("internal failure%s%s" % (what, e2e.text_tail(r.text, 1500)))
    if "constant formula" in r.text:
        raise Rejected()
    if r.rc:
        raise Violation("a command failed (exit %d)%s%s" % (r.rc, what, e2e.text_tail(r.text)))
    csv, mp = env.read("g.csv"), env.read("g.map")
    what += "--- g.map\n%s--- g.csv\n%s\n" % (mp, csv)
    sect = {}
    for part in r.out.split("@@")[1:]:
        head, _, body = part.partition("\n")
        sect[head] = body
    if sect["gen"].strip() != csv.strip():
        raise Violation("generate_trace prints something else than it writes%s%s" % (what, sect["gen"]))

    # the map: a bijection of the inputs in it and column numbers
    m = {}
    for line in mp.splitlines():
        if not re.fullmatch(r"[\w\[\]]+:\d+", line):
            raise Violation("generate_map writes the line %r%s" % (line, what))
        s, i = line.split(":")
        if s in m or int(i) in m.values():
            raise Violation("the generated map is no injection%s" % what)
        m[s] = int(i)
    if set(types) - set(m):
        raise Violation("the map leaves out the inputs %s%s" % (sorted(set(types) - set(m)), what))
    given = {"generated": None, "map": dict(c["map"]) if c["src"] == "map" else None, "trace": {s: i for i, s in enumerate(c["map"])} if c["src"] == "trace" else None}[c["src"]]
    if given is not None and m != given and any(k not in given or m[k] != given[k] for k in types):
        raise Violation("generate_map changes the mapping given%s" % what)
    if given is None and sorted(m, key=m.get) != list(types):
        raise Violation("the map does not number the inputs in order of declaration%s" % what)

    # the trace
    rows = csv.splitlines()
    if not rows[0].startswith("#") or len(rows) != gen["n"] + 1:
        raise Violation("the trace has no header and %d rows%s" % (gen["n"], what))
    head = rows[0][1:].split(",")
    cells = [x.split(",") for x in rows[1:]]
    if any(len(x) != len(head) for x in cells):
        raise Violation("rows and header differ in length%s" % what)
    n = gen["n"]
    cols = {}
    for s, t in types.items():
        if m[s] >= len(head) or head[m[s]] != s:
            raise Violation("column %d of the trace is not %s as mapped%s" % (m[s], s, what))
        vals = [x[m[s]] for x in cells]
        if t == "b":
            ok = all(v in ("0", "1") for v in vals)
        elif t == "i":
            ok = all(re.fullmatch(r"-?\d+", v) and int(gen["lo"]) <= int(v) <= int(gen["hi"]) for v in vals)
        else:
            digits = 5 if gen["prec"] is None else gen["prec"]
            ok = all(re.fullmatch(r"-?\d+\.\d{1,%d}" % digits, v) and gen["lo"] - 10 ** -digits <= float(v) <= gen["hi"] + 10 ** -digits for v in vals)
        if not ok:
            raise Violation("column %s of type %s holds %s%s" % (s, t, vals, what))
        cols[s] = [float(v) if t == "f" else int(v) for v in vals]

    # the run
    acols = {k: bz.column(x, cols, n, types) for k, x in el.atoms.items()}
    out = env.read("out.txt")
    mon = e2e.run_monitor(env, "spec.bin", "g.csv")
    if out != mon.out:
        raise Violation("run_r2u2 wrote something else than the monitor prints%s--- monitor\n%s--- out.txt\n%s" % (what, mon.out, out))
    if sect["run"].strip() != (out.strip() if c["run"]["print"] else ""):
        raise Violation("run_r2u2 prints something else than the monitor%s--- monitor\n%s--- printed\n%s" % (what, mon.out, sect["run"]))
    v = e2e.verdicts(mon)
    try:
        e2e.check_formulas(fs, acols, n, v)
    except Violation as ex:
        raise Violation("%s%s--- monitor\n%s" % (ex, what, mon.out))

    # map and header name the same columns to the command line
    for extra, bin_ in ((["--trace", "g.csv"], "t.bin"), (["--map", "g.map"], "m.bin")):
        r2 = env.c2po(["--spec", "a.c2po", "-o", bin_] + extra + (["-bz"] if c["bz"] else []))
        if r2.crashed or r2.rc:
            raise Violation("compiling with %s fails (exit %d)%s%s" % (extra, r2.rc, what, e2e.text_tail(r2.text)))
        try:
            e2e.check_formulas(fs, acols, n, e2e.verdicts(e2e.run_monitor(env, bin_, "g.csv")))
        except Violation as ex:
            raise Violation("compiled with %s: %s%s" % (extra, ex, what))
    return {"nontrivial": e2e.both_values(v) and len(types) > 1, "labels": ["mapping:" + c["src"], "bz:%s" % c["bz"]]}


CHECK = Check("P22", [
    Part("session", cases, run, 2000, 25000, "programs with generated maps and traces, run from the session"),
], rule="non-trivial: both verdicts are reported; distinct by the whole case", assumptions=[])

if __name__ == "__main__":
    main(CHECK)
