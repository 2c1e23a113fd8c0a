import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import shutil
import P11, P17
import bz, e2e, logic, rich, syntax
from hypothesis import strategies as st

PASSES = ["to_nnf", "to_bnf", "optimize_rewrites", "optimize_cse", "remove_extended_operators", "flatten_multi_operators", "multi_operators_to_binary", "sort_operands_by_pd", "remove_release_operators",
          "resolve_contracts", "resolve_bool_equalities", "expand_definitions", "compute_atomics", "compute_scq_sizes"]
LOOK = ["print_c2po", "print_prefix", "print_mltl", "write_c2po o{k}.c2po", "write_prefix o{k}.prefix", "write_mltl o{k}.mltl", "generate_map --output o{k}.map", "generate_trace 4 0 3 --seed 7 --output o{k}.csv", "generate_trace 5 0 9 --seed 0 --print", "print_stats %S"]
WORLDS = st.tuples(st.sampled_from([0, 1, 4242]), st.integers(1, 1 << 20), st.booleans())


@st.composite
def cases(draw):
    c = draw(rich.cases(depth=draw(st.integers(1, 4)), more=True))
    # a second copy of a formula elsewhere gives CSE something to share
    if draw(st.booleans()):
        c["fs"] = c["fs"] + [[None, draw(st.sampled_from([e for _, e in c["fs"]]))]]
    c["script"] = draw(st.one_of(st.none(), st.lists(st.sampled_from(PASSES + LOOK), min_size=1, max_size=8)))
    c["flags"] = draw(st.lists(st.sampled_from(["--no-cse", "--no-rewrite", "--no-aux", "--extops"]), unique=True, max_size=2)) + draw(st.sampled_from([[], ["--write-bounds", "b.h"], ["--write-bounds", "b.toml"]]))
    c["worlds"] = [draw(WORLDS) for _ in range(2)]
    return c


def repeat(env, c, files, argv, what):
    """Run the command line in two processes; all they leave behind and print has to be equal."""
    runs = []
    for k, (seed, noise, elsewhere) in enumerate(c["worlds"]):
        d = env.path("other/deep dir" if elsewhere else "d%d" % k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for name, text in files.items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        r = env.c2po(argv, hashseed=seed, noise=noise, cwd=d)
        if r.crashed or r.timeout:
            raise Violation("internal failure%s\n%s" % (what, e2e.text_tail(r.text)))
        left = {}
        for top, _, names in os.walk(d):
            for f in names:
                with open(os.path.join(top, f), "rb") as fh:
                    left[os.path.relpath(os.path.join(top, f), d)] = fh.read()
        runs.append((r, left))
    (r1, f1), (r2, f2) = runs
    what += "\n--- processes %s\n" % c["worlds"]
    if r1.rc != r2.rc:
        raise Violation("exit code %d in one process, %d in another%s\n%s\n%s" % (r1.rc, r2.rc, what, e2e.text_tail(r1.text), e2e.text_tail(r2.text)))
    if sorted(f1) != sorted(f2):
        raise Violation("files %s in one process, %s in another%s" % (sorted(f1), sorted(f2), what))
    for f in f1:
        if f1[f] != f2[f]:
            raise Violation("%s differs between processes%s--- one\n%s\n--- other\n%s" % (f, what, f1[f].decode("latin-1"), f2[f].decode("latin-1")))
    if r1.out != r2.out:
        raise Violation("the output differs between processes%s--- one\n%s\n--- other\n%s" % (what, r1.out, r2.out))
    return f1


def run(env, c):
    text = rich.program(c)
    n, cols, order = c["trace"]["n"], c["trace"]["cols"], c["trace"]["order"]
    files = {"a.c2po": text, "trace.csv": bz.csv(cols, order, rich.sig_types(c), n)}
    if c["script"] is None:
        argv = ["--spec", "a.c2po", "--trace", "trace.csv", "-o", "spec.bin"] + (["-bz"] if c["bz"] else []) + c["flags"]
        how = " ".join(argv)
    else:
        ls = (["enable_booleanizer"] if c["bz"] else []) + ["parse_c2po a.c2po", "parse_trace trace.csv", "type_check", "desugar"] + [x.replace("{k}", str(i)) for i, x in enumerate(c["script"])]
        ls += ["multi_operators_to_binary", "remove_extended_operators", "assemble --print spec.bin"]
        files["run.cmd"] = "\n".join(ls) + "\n"
        argv = ["--script", "run.cmd"]
        how = "; ".join(ls)
    left = repeat(env, c, files, argv, "\n--- a.c2po\n%s--- %s" % (text, how))
    return {"nontrivial": "spec.bin" in left and c["worlds"][0][0] != c["worlds"][1][0], "labels": ["script:%s" % (c["script"] is not None), "bz:%s" % c["bz"]]}


@st.composite
def mltl_cases(draw):
    c = draw(P11.cases())
    return {"kind": c["kind"], "fs": c["fs"], "seed": c["seed"], "bz": c["bz"], "flags": [f for f in c["flags"] if c["kind"] == "FT" or f != "--extops"],
            "script": draw(st.one_of(st.none(), st.lists(st.sampled_from(PASSES + LOOK), min_size=1, max_size=8))), "worlds": [draw(WORLDS) for _ in range(2)]}


def run_mltl(env, c):
    p = syntax.Printer("mltl", c["seed"])
    text = "".join(p.layout(p.formula(f)[0]) + "\n" for f in c["fs"])
    files = {"a.mltl": text}
    if c["script"] is None:
        argv = ["--spec", "a.mltl", "-o", "spec.bin"] + (["-bz"] if c["bz"] else []) + c["flags"]
        how = " ".join(argv)
    else:
        ls = (["enable_booleanizer"] if c["bz"] else []) + ["parse_mltl a.mltl", "print_c2po", "type_check", "desugar"] + [x.replace("{k}", str(i)) for i, x in enumerate(c["script"])]
        ls += ["write_c2po w.c2po", "generate_map --output w.map", "multi_operators_to_binary", "remove_extended_operators", "assemble --print spec.bin"]
        files["run.cmd"] = "\n".join(ls) + "\n"
        argv = ["--script", "run.cmd"]
        how = "; ".join(ls)
    left = repeat(env, c, files, argv, "\n--- a.mltl\n%s--- %s" % (text, how))
    return {"nontrivial": "spec.bin" in left and c["worlds"][0][0] != c["worlds"][1][0], "labels": ["mltl script:%s" % (c["script"] is not None)]}


@st.composite
def smt_cases(draw):
    c = draw(st.one_of(P17.concrete(), P17.symbolic()))
    c["worlds"] = [draw(WORLDS) for _ in range(2)]
    return c


def run_smt(env, c):
    """The SMT problems written (they are not solved here)."""
    fs = c["fs"]
    if "cs" in c:
        text = "".join("c: %s %s %s\n" % (P17.btext(p), r, P17.btext(q)) for r, p, q in c["cs"]) + "".join(P17.etext(f, True) + "\n" for f in fs)
        ls, runs, name = ["parse_equiv a.equiv"], [["uflia", int(c["strict"])]], "a.equiv"
    else:
        text = "INPUT\n" + "".join("  %s: bool;\n" % n for n in c["names"]) + "FTSPEC\n" + "".join("  s%d: %s;\n" % (n, logic.c2po(f)) for n, f in enumerate(fs))
        ls, runs, name = ["parse_c2po a.c2po"], c["runs"], "a.c2po"
    ls += ["type_check", "desugar", "print_c2po", "print_prefix"]
    for n, (t, s) in enumerate(runs):
        ls += ["write_equiv_smt_encoding e%d %s%s" % (n, t, " --strict" if s else ""), "write_smt_encoding f%d %s%s" % (n, t, " --strict" if s else "")]
    left = repeat(env, c, {name: text, "run.cmd": "\n".join(ls) + "\n"}, ["--script", "run.cmd"], "\n--- %s\n%s--- %s" % (name, text, "; ".join(ls)))
    return {"nontrivial": len(left) > 2 and c["worlds"][0][0] != c["worlds"][1][0], "labels": ["smt:" + name]}


CHECK = Check("P19", [
    Part("repeat", cases, run, 2500, 30000, "the same compilation in two processes with different hash seeds, heap layouts and directories"),
    Part("mltl", mltl_cases, run_mltl, 700, 8000, "the same for MLTL-STD files"),
    Part("smt", smt_cases, run_smt, 500, 6000, "the same for the SMT problems written for .c2po and .equiv files"),
], rule="non-trivial: a binary (smt: a problem) was written under different hash seeds; distinct by the whole case", assumptions=[])

if __name__ == "__main__":
    main(CHECK)
