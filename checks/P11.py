import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import e2e, gen, logic, syntax
from hypothesis import strategies as st

OPTS = [[], [], ["--no-cse"], ["--no-rewrite"], ["--extops"], ["--no-aux"]]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["FT", "PT"]))
    ops = [o for o in (gen.FT_OPS if kind == "FT" else gen.PT_OPS) if o != "xor"]
    names = ["a%d" % i for i in draw(st.lists(st.one_of(st.integers(0, 4), st.integers(0, 30), st.integers(95, 105)), min_size=1, max_size=4, unique=True))]
    fs = draw(gen.formulas(names, ops, max_formulas=4, max_depth=4, max_ub=6))
    tr = draw(gen.bool_trace(names, 1, 24))
    width = 1 + max(int(x[1:]) for x in names) + draw(st.integers(0, 2))
    return {"kind": kind, "fs": fs, "trace": tr, "width": width, "filler": draw(st.integers(0, 1)), "seed": draw(st.integers(0, 1 << 30)),
            "mission": draw(st.one_of(st.none(), st.integers(0, 6))), "redundant": draw(st.sampled_from([0, 0.2, 0.5])),
            "bz": draw(st.booleans()), "flags": draw(st.sampled_from(OPTS)), "given": draw(st.sampled_from(["nothing", "nothing", "trace", "header", "map"])),
            "script": draw(st.integers(0, 3)) == 0}


def run(env, case):
    kind, fs, n, cols = case["kind"], case["fs"], case["trace"]["n"], case["trace"]["cols"]
    p = syntax.Printer("mltl", case["seed"], redundant=case["redundant"], mission=case["mission"])
    lines = []
    for f in fs:
        if p.rng.random() < 0.15:
            lines.append("# F[0] a0 (not a formula")
        lines.append(p.layout(p.formula(f)[0]))
    text = "".join(l + "\n" for l in lines)
    at = {s: int(s[1:]) for s in cols}
    if case["given"] == "header":  # named columns, in an order that is not theirs
        order = sorted(cols, key=lambda s: (case["seed"] * 7919 * (at[s] + 1)) % 1009)
        at = {s: i for i, s in enumerate(order)}
        csv = "#" + ",".join(order) + "\n"
        width = len(order)
    elif case["given"] == "map":
        order = sorted(cols, key=lambda s: (case["seed"] * 7919 * (at[s] + 1)) % 1009)
        at = {s: i + 1 for i, s in enumerate(order)}
        env.write("m.map", "".join("%s:%d\n" % x for x in at.items()))
        csv, width = "", len(order) + 1
    else:
        csv, width = "", case["width"]
    for t in range(n):
        row = [str(case["filler"])] * width
        for s, i in at.items():
            row[i] = str(cols[s][t])
        csv += ",".join(row) + "\n"
    env.write("s.mltl", text)
    env.write("trace.csv", csv)
    given = {"nothing": [], "trace": ["--trace", "trace.csv"], "header": ["--trace", "trace.csv"], "map": ["--map", "m.map"]}[case["given"]]
    if case["script"]:
        cmds = (["enable_booleanizer"] if case["bz"] else []) + ["parse_mltl s.mltl" + (" --mission-time %d" % case["mission"] if case["mission"] is not None else "")]
        cmds += [{"--trace": "parse_trace", "--map": "parse_map"}[given[0]] + " " + given[1]] if given else []
        cmds += ["compile spec.bin"]
        env.write("run.cmd", "".join(c + "\n" for c in cmds))
        argv = ["--script", "run.cmd"]
    else:
        argv = ["--spec", "s.mltl", "-o", "spec.bin"] + given + (["-bz"] if case["bz"] else []) + case["flags"]
        argv += ["--mission-time", case["mission"]] if case["mission"] is not None else []
    r = env.c2po(argv)
    if r.rc in (5, 11) and "constant formula" in r.text and any(e2e.is_constant(f, sorted(cols)) for f in fs):
        raise Rejected()
    if r.rc != 0 or r.crashed or r.timeout or not env.exists("spec.bin"):
        raise Violation("C2PO rejected a valid MLTL-STD file (exit %d; %s)\n%s\n%s" % (r.rc, argv, text, e2e.text_tail(r.text)))
    v = e2e.verdicts(e2e.run_monitor(env))
    try:
        e2e.check_formulas(fs, cols, n, v)
    except Violation as ex:
        raise Violation("%s\n%s\n%s" % (ex, text, csv))
    return {"nontrivial": e2e.both_values(v) and any(logic.size(f) > 2 for f in fs), "labels": ["given:" + case["given"], "bz:%s" % case["bz"], "script:%s" % case["script"]] + e2e.spec_labels(fs, n)[:1]}


@st.composite
def mixed_cases(draw):
    ft = draw(gen.formula(["a0", "a1"], [o for o in gen.FT_OPS if o != "xor"], 3, 4, root=True))
    pt = draw(gen.formula(["a0", "a1"], [o for o in gen.PT_OPS if o != "xor"], 3, 4, root=True))
    fs = [ft, pt] if draw(st.booleans()) else [pt, ft]
    if draw(st.booleans()):
        fs = [[draw(st.sampled_from(["&", "|", "->", "<->"]))] + fs]
    return {"fs": fs, "bad": draw(st.sampled_from(["mixed", "mixed", "mission", "interval", "syntax", "syntax", "nofile"])), "at": draw(st.integers(0, 200)), "junk": draw(st.sampled_from(["(", ")", "[", "&", "U", "a", "@", "G", "1", "G[", "||", ";", "^"]))}


def run_bad(env, case):
    """Files outside the format are refused with a message, and no binary appears."""
    p = syntax.Printer("mltl", 0, redundant=0)
    lines = [p.layout(p.formula(f)[0]) for f in case["fs"]]
    if case["bad"] != "mixed":
        lines = lines[:1] if not (logic.n_temporal(case["fs"][0]) and len(case["fs"]) == 1) else ["a0 & G[0,2] a1"]
    bad = case["bad"]
    if bad == "mission":
        lines = ["G[0,M] a0"] + ["F[M] a1"]
    elif bad == "interval":
        lines = ["G[%d,%d] a0" % (case["at"] + 1, case["at"])]
    elif bad == "syntax":
        k = case["at"] % (len(lines[0]) + 1)
        l = lines[0][:k] + " " + case["junk"] + " " + lines[0][k:]
        if MLTL_OK(l):
            raise Rejected()
        lines[0] = l
    text = "".join(l + "\n" for l in lines)
    if bad != "nofile":
        env.write("s.mltl", text)
    r = env.c2po(["--spec", "s.mltl", "-o", "spec.bin"])
    if r.crashed or r.timeout:
        raise Violation("C2PO failed on\n%s\n%s" % (text, e2e.text_tail(r.text)))
    if r.rc == 0 or env.exists("spec.bin") or "error" not in r.text:
        raise Violation("C2PO accepted an MLTL-STD file that is none (%s)\n%s" % (bad, text))
    return {"nontrivial": True, "labels": ["bad:" + bad]}


def MLTL_OK(line):
    """Does the line happen to be a formula? (recursive descent over the documented grammar)"""
    import re
    tk, pos = [], 0
    rx = re.compile(r"\s*(<->|->|true|false|a(?:0|[1-9]\d*)|[GFHOURSTM]|0|[1-9]\d*|[!&|()\[\],])")
    line = line.rstrip()
    while pos < len(line):
        m = rx.match(line, pos)
        if not m:
            return False
        tk.append(m.group(1))
        pos = m.end()
    i = 0

    def interval():
        nonlocal i
        j = "".join(x if x in "[]," else "n" for x in tk[i:i + 5] if x)
        for s in ("[n]", "[n,n]"):
            if "".join("n" if x.isdigit() else x for x in tk[i:i + len(s)]) == s:
                i += len(s)
                return True
        return False

    def operand():
        nonlocal i
        if i >= len(tk):
            return False
        t = tk[i]
        i += 1
        if t == "!":
            return operand()
        if t in "GFHO" and len(t) == 1:
            return interval() and operand()
        if t == "(":
            if not expr() or i >= len(tk) or tk[i] != ")":
                return False
            i += 1
            return True
        return t in ("true", "false") or t[0] == "a"

    def expr():
        nonlocal i
        if not operand():
            return False
        while i < len(tk) and tk[i] in ("->", "<->", "|", "&", "U", "R", "S", "T"):
            t = tk[i]
            i += 1
            if t in "URST" and not interval():
                return False
            if not operand():
                return False
        return True
    return expr() and i == len(tk)


CHECK = Check("P11", [
    Part("formulas", cases, run, 2400, 30000, "1-4 formulas in MLTL-STD with minimal or surplus parentheses, both interval forms, M bounds, comment lines; atoms up to a105; no mapping, trace, header or map; with and without the booleanizer; CLI or script"),
    Part("refused", mixed_cases, run_bad, 400, 6000, "tenses mixed within a file, missing mission time, reversed intervals, stray tokens, missing file"),
], rule="non-trivial: some formula has an operator and both verdicts are reported, or the file is refused; distinct by the whole case",
    assumptions=["compiler/docs/user/mltl_std.md for the format; operator table as declared in parse_mltl.py"])

if __name__ == "__main__":
    main(CHECK)
