import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import re
import binary, bz, e2e, gen, logic, rich, syntax
from hypothesis import strategies as st

POOL = ["(", ")", "[", "]", "{", "}", ";", ":", ",", ".", "..", "=>", ":=", "->", "<->", "xor", "&&", "||", "!", "&", "|", "^", "~", "==", "!=", ">", "<", ">=", "<=",
        "+", "-", "*", "/", "%", "pow", "abs", "sqrt", "prev", "TAU", "M", "G", "F", "H", "O", "U", "R", "S", "T", "G[0,2]", "U[1,3]", "O[2]", "0", "1", "2", "3", "7", "-1", "1.5", "0.0",
        "2147483648", "true", "false", "STRUCT", "ENUM", "INPUT", "DEFINE", "FTSPEC", "PTSPEC", "foreach", "forsome", "forexactly", "foratleast", "foratmost", "bool", "int", "float",
        "p", "q", "i", "x", "BA", "IA", "FA", "d0", "d1", "S0", "lab0", "e", "Ea", "En", "m0", "nosuch", "[0]", "[3]", "[0..1]", "{}", "--", "\n", "<<", ">>", "$", "é"]
TOKEN = re.compile(r"--.*|\w+(?:\.\d+)?|<->|->|=>|:=|\.\.|&&|\|\||[=!<>]=|<<|>>|\s+|.", re.S)
FLAGS = [[], ["-bz"], ["--no-rewrite"], ["--no-cse"], ["--extops"], ["--mission-time", "3"], ["--write-bounds", "b.h"], ["--debug"], ["-c"], ["-tc"], ["-p"]]


@st.composite
def edits(draw, pool, n=3):
    return [[draw(st.sampled_from(["del", "ins", "rep", "swap", "copy", "dup", "char", "like", "like", "like", "alike", "alike"])), draw(st.integers(0, 9999)), draw(st.integers(0, 9999)), draw(st.sampled_from(pool))]
            for _ in range(draw(st.integers(1, n)))]


CLASSES = [re.compile(r"[A-Za-z]\w*"), re.compile(r"[\d.]+"), re.compile(r"<->|->|xor|&&|\|\||[=!<>]=?|<<|>>|[-+*/%&|^~]"), re.compile(r"[()\[\]{}]"), re.compile(r"[;:,]")]


def token_class(t):
    return next((k for k, rx in enumerate(CLASSES) if rx.fullmatch(t)), None)


def apply(text, edits, rx=TOKEN):
    tk = rx.findall(text)
    for kind, i, j, s in edits:
        vis = [k for k, t in enumerate(tk) if not t.isspace()] or [0]
        if not tk:
            tk = [s]
            continue
        i, j = vis[i % len(vis)], vis[j % len(vis)]
        if kind == "del":
            del tk[i]
        elif kind == "ins":
            tk.insert(i, " " + s + " ")
        elif kind == "rep":
            tk[i] = s
        elif kind == "swap":
            tk[i], tk[j] = tk[j], tk[i]
        elif kind == "copy":
            tk[i] = tk[j]
        elif kind == "like" and token_class(tk[i]) is not None:
            # an identifier becomes another identifier of the program, a number another number, ...
            same = [k for k in vis if token_class(tk[k]) == token_class(tk[i])]
            tk[i] = tk[same[j % len(same)]]
        elif kind == "alike" and token_class(s) is not None:
            same = [k for k in vis if token_class(tk[k]) == token_class(s)]
            if same:
                tk[same[i % len(same)]] = s
        elif kind == "dup":
            a, b = min(i, j), max(i, j) + 1
            tk[b:b] = tk[a:min(b, a + 40)]
        elif kind == "char":
            tk[i] = tk[i][:1] + s[:1] + tk[i][1:]
    return "".join(tk)


def compiled_or_refused(env, argv, what, out="spec.bin", limit=20, binary_needed=True, keeps_going=False):
    """The compiler terminates, and either reports success and wrote a program the monitor can load,
    or reports failure, says why, and writes nothing."""
    r = env.c2po(argv, timeout=limit)
    if r.timeout:
        raise Violation("C2PO did not terminate within %d s\n%s" % (limit, what))
    if r.crashed:
        raise Violation("C2PO failed internally (exit %d)\n%s\n%s" % (r.rc, what, e2e.text_tail(r.text, 1500)))
    if r.rc == 0:
        if re.search(r"\berror\b", r.text.split("CG TL")[0]):
            raise Violation("C2PO reports an error but exits 0\n%s\n%s" % (what, e2e.text_tail(r.text)))
        if binary_needed:
            if not env.exists(out):
                raise Violation("C2PO reports success but wrote no binary\n%s" % what)
            try:
                binary.decode(env.read(out, binary=True), binary.engine_tags(REPO))
            except binary.Bad as ex:
                raise Violation("C2PO wrote an ill-formed binary: %s\n%s" % (ex, what))
    else:
        if "error" not in r.text and "guard" not in r.text:
            raise Violation("C2PO exits %d without saying why\n%s\n%s" % (r.rc, what, e2e.text_tail(r.text)))
        if env.exists(out) and not keeps_going:
            raise Violation("C2PO exits %d but wrote a binary\n%s\n%s" % (r.rc, what, e2e.text_tail(r.text)))
    return r


@st.composite
def c2po_cases(draw):
    c = draw(rich.cases(depth=draw(st.integers(1, 2)), more=True))
    c["edits"] = draw(edits(POOL, 4))
    c["flags"] = draw(st.sampled_from(FLAGS)) + draw(st.sampled_from(FLAGS[:6]))
    c["traced"] = draw(st.integers(0, 3)) > 0
    return c


def run_c2po(env, case):
    text = apply(rich.program(case), case["edits"])
    if re.search(r"\[\s*-?\d{5,}\s*\]", text):  # an array of this size has as many elements
        raise Rejected()
    env.write("s.c2po", text)
    types = rich.sig_types(case)
    env.write("trace.csv", bz.csv(case["trace"]["cols"], case["trace"]["order"], types, case["trace"]["n"]))
    flags = case["flags"]
    stop = set(flags) & {"-c", "-tc", "-p"}
    r = compiled_or_refused(env, ["--spec", "s.c2po", "-o", "spec.bin"] + (["--trace", "trace.csv"] if case["traced"] else []) + flags, text, binary_needed=not stop)
    return {"nontrivial": True, "labels": ["accepted" if r.rc == 0 else "refused"] + ["edit:" + e[0] for e in case["edits"]]}


MLTL_POOL = ["(", ")", "[", "]", ",", "!", "&", "|", "->", "<->", "G", "F", "H", "O", "U", "R", "S", "T", "M", "0", "1", "7", "2147483648", "-1", "a0", "a1", "a", "a255", "a256", "a99999", "b0", "true", "false",
             "\n", "#", "# c\n", ";", "&&", "xor", "G[0,2]", "U[1,3]", "$", "é", "a00", "a-1", ":", "M-1"]
DATA_POOL = ["#", "@", ",", ":", "\n", " ", "0", "1", "-1", "255", "256", "99999999999", "1.5", "p", "q", "i", "x", "BA[0]", "IA[1]", "e", "true", "", "é", "p:0", "p:1", "#p,q", "@3 1,0", "\t", "0x1", "--"]
RAW = re.compile(r"\w+|.", re.S)


@st.composite
def mltl_cases(draw):
    names = ["a%d" % i for i in draw(st.lists(st.integers(0, 6), min_size=1, max_size=3, unique=True))]
    fs = [draw(gen.formula(names, [o for o in draw(st.sampled_from([gen.FT_OPS, gen.PT_OPS])) if o != "xor"], 3, 4, root=True)) for _ in range(draw(st.integers(1, 3)))]
    return {"fs": fs, "seed": draw(st.integers(0, 1 << 30)), "edits": draw(edits(MLTL_POOL, 4)), "flags": draw(st.sampled_from(FLAGS)),
            "trace": draw(st.sampled_from([None, "1,0,1,0,1,0,1\n0,1,1,0,1,0,0\n", "#a1,a0,a2\n1,0,1\n", "#p,a0\n0,1\n"])), "data": draw(edits(DATA_POOL, 2))}


def run_mltl(env, case):
    p = syntax.Printer("mltl", case["seed"], redundant=0.2)
    text = apply("".join(p.layout(p.formula(f)[0]) + "\n" for f in case["fs"]), case["edits"], RAW)
    env.write("s.mltl", text)
    argv = ["--spec", "s.mltl", "-o", "spec.bin"] + case["flags"]
    if case["trace"]:
        csv = apply(case["trace"], case["data"], RAW)
        env.write("t.csv", csv)
        argv += ["--trace", "t.csv"]
        text += "--- trace\n" + csv
    r = compiled_or_refused(env, argv, text, binary_needed=not set(case["flags"]) & {"-c", "-tc", "-p"})
    return {"nontrivial": True, "labels": ["mltl " + ("accepted" if r.rc == 0 else "refused")] + ["edit:" + e[0] for e in case["edits"]]}


PROGRAM = """ENUM En: {Ea: 3, Eb: 1};
INPUT p, q: bool; BA: bool[2]; i: int; IA: int[2]; x: float; e: En;
FTSPEC p -> F[0,2] q; BA[1] && (i > IA[1]); e == Eb || x < 2.5;
"""


@st.composite
def data_cases(draw):
    cols = ["p", "q", "BA[0]", "BA[1]", "i", "IA[0]", "IA[1]", "x", "e"]
    order = draw(st.permutations(cols))
    trace = "#" + ",".join(order) + "\n" + "1,0,1,0,5,6,7,1.5,3\n" if draw(st.booleans()) else "# " + ", ".join(order) + "\n@2 1,0,1,0,5,6,7,1.5,3\n@3 1,0,1,0,5,6,7,1.5,1\n"
    mapping = "".join("%s:%d\n" % (c, k) for k, c in enumerate(order))
    return {"trace": draw(st.sampled_from([None, trace, trace])), "map": draw(st.sampled_from([None, mapping, mapping])),
            "te": draw(edits(DATA_POOL, 3)), "me": draw(edits(DATA_POOL, 3)), "both": draw(st.booleans()), "flags": draw(st.sampled_from(FLAGS))}


def run_data(env, case):
    env.write("s.c2po", PROGRAM)
    argv, what = ["--spec", "s.c2po", "-o", "spec.bin", "-bz"] + [f for f in case["flags"] if f != "-bz"], ""
    for key, name, flag, ed in (("trace", "t.csv", "--trace", "te"), ("map", "m.map", "--map", "me")):
        if case[key] is not None:
            text = apply(case[key], case[ed], RAW)
            env.write(name, text)
            argv += [flag, name]
            what += "--- %s\n%s\n" % (name, text)
    r = compiled_or_refused(env, argv, what, binary_needed=not set(case["flags"]) & {"-c", "-tc", "-p"}, keeps_going=case["trace"] and case["map"])
    return {"nontrivial": len(what) > 0, "labels": ["data " + ("accepted" if r.rc == 0 else "refused")]}


COMMANDS = ["parse_c2po a.c2po"] * 3 + ["parse_trace t.csv"] * 3 + ["parse_map m.map", "type_check", "type_check", "desugar", "desugar", "optimize_rewrites", "optimize_cse", "to_nnf", "to_bnf", "flatten_multi_operators", "remove_release_operators",
            "multi_operators_to_binary", "remove_extended_operators", "compute_atomics", "compile o.bin", "compile o.bin", "assemble o.bin", "print_c2po", "print_prefix", "print_mltl", "write_c2po o.c2po", "write_mltl o.mltl",
            "generate_map --output o.map", "generate_trace 3 0 5 --output o.csv", "write_bounds_c o.h", "enable_booleanizer", "disable_booleanizer", "set_mission_time 7", "push", "push", "pop", "echo x", "# a comment", ""]
WRONG = ["parse_c2po none.c2po", "parse_c2po bad.c2po", "parse_c2po ill.c2po", "parse_mltl bad.mltl", "parse_mltl none.mltl", "parse_trace none.csv", "parse_map none.map", "parse_map bad.map", "nosuch", "pop", "compile", "echo 'x", "set_mission_time x",
         "generate_trace 3", "run_r2u2 none.bin t.csv", "write_c2po", "compile o.bin --nosuch", "print_stats", "check_sat nosuch"]
# these fail whatever the state is
SURE = {w for w in WRONG if w not in ("pop", "parse_c2po ill.c2po")}


@st.composite
def scripts(draw):
    c = {"program": draw(rich.cases(depth=1, more=True)), "script": []}
    if draw(st.booleans()):
        c["script"] += ["parse_c2po a.c2po", "parse_trace t.csv"] + (["enable_booleanizer"] if c["program"]["bz"] else [])
    wrong = draw(st.sampled_from([0, 0, 5, 20, 40]))
    for _ in range(draw(st.integers(1, 12))):
        c["script"].append(draw(st.sampled_from(WRONG if draw(st.integers(0, 99)) < wrong else COMMANDS)))
    if draw(st.integers(0, 5)) == 0:
        c["script"].insert(draw(st.integers(0, len(c["script"]))), "exit")
    return c


def run_scripts(env, case):
    p = case["program"]
    env.write("a.c2po", rich.program(p))
    env.write("bad.c2po", "INPUT p: bool; FTSPEC p &&;\n")
    env.write("ill.c2po", "INPUT p: bool; FTSPEC p + 1;\n")
    env.write("bad.mltl", "G[0,2] a0 &\n")
    env.write("bad.map", "p:x\n")
    env.write("t.csv", bz.csv(p["trace"]["cols"], p["trace"]["order"], rich.sig_types(p), p["trace"]["n"]))
    env.write("m.map", "".join("%s:%d\n" % (s, i) for i, s in enumerate(p["trace"]["order"])))
    script = case["script"]
    env.write("s.cmd", "".join("%s\necho @@%d\n" % (l, i) for i, l in enumerate(script)))
    r = env.c2po(["--script", "s.cmd"], timeout=20)
    what = "--- a.c2po\n%s\n--- script\n%s\n--- output (exit %d)\n%s" % (env.read("a.c2po"), "\n".join(script), r.rc, e2e.text_tail(r.text, 1500))
    if r.crashed or r.timeout:
        raise Violation("a command failed internally, or does not terminate\n" + what)
    stop = script.index("exit") if "exit" in script else len(script)
    marks = [int(m) for m in re.findall(r"@@(\d+)", r.out)]
    if marks != list(range(stop)):
        raise Violation("not all commands before the exit were executed: %s\n%s" % (marks, what))
    err = "error" in r.text or "guard condition" in r.text
    depth = 0
    for l in script[:stop]:
        depth += l == "push"
        if l in SURE or l == "pop" and depth == 0:
            if r.rc == 0:
                raise Violation("'%s' must fail, but the exit code is 0\n%s" % (l, what))
        elif l == "pop":
            depth -= 1
    if err != (r.rc != 0):
        raise Violation("%s, but the exit code is %d\n%s" % ("an error is reported" if err else "no error is reported", r.rc, what))
    return {"nontrivial": stop > 2, "labels": ["script " + ("fails" if r.rc else "succeeds")]}


CHECK = Check("P09", [
    Part("programs", c2po_cases, run_c2po, 6000, 80000, "full-language programs after 1-4 token edits, random switches"),
    Part("mltl", mltl_cases, run_mltl, 3000, 40000, "MLTL-STD files and traces after edits"),
    Part("scripts", scripts, run_scripts, 1500, 20000, "command scripts, with and without failing commands at any position, around push and pop and before exit"),
    Part("data", data_cases, run_data, 2000, 30000, "trace and map files after edits"),
], rule="non-trivial: every case (the compiler ran to a verdict); distinct by the whole case",
    assumptions=[])

if __name__ == "__main__":
    main(CHECK)
