"""compile -> monitor -> verdicts, shared by the checks."""
import functools
import re

import binary
import logic
from core import REPO, Violation, Rejected, HarnessError

SIGS = ["p", "q", "r", "s"]


def text_tail(s, n=800):
    return s if len(s) <= n else "..." + s[-n:]


def compile_ok(env, argv, what="spec", out="spec.bin"):
    """Compile input that must be accepted."""
    r = env.c2po(argv)
    if r.timeout:
        raise Violation("C2PO did not terminate on a valid %s: %s" % (what, argv))
    if r.rc != 0 or r.crashed:
        raise Violation("C2PO rejected a valid %s (exit %d): %s\n%s" % (what, r.rc, argv, text_tail(r.text)))
    if out and not env.exists(out):
        raise Violation("C2PO reported success but wrote no %s: %s" % (out, argv))
    return r


def constant_reject(env, r, formulas, sigs, kind, seeds=24, n=24):
    """A formula that simplifies to a constant is refused by the assembler; that is
    legitimate exactly when some formula really is constant."""
    if r.rc == 0 or "constant formula" not in r.text or r.crashed:
        return False
    if any(is_constant(f, sigs, seeds, n) for f in formulas):
        return True
    raise Violation("C2PO calls a formula constant, but none of these is: %s" % [logic.c2po(f) for f in formulas])


def is_constant(f, sigs, seeds=24, n=24):
    vals = set()
    w = logic.wpd(f)
    base = {s: [] for s in sigs}
    for tr in logic.extensions(base, 0, n + w, range(seeds)):
        vals |= set(logic.evaluate(f, tr, n + w, n + w + 1)[:n])
        if len(vals) > 1:
            break
    return len(vals) == 1


def compile_live(env, fs, sigs, kind, compile):
    """compile(fs) -> Result. If it is refused for a constant formula, once more without those that are
    constant. -> (Result, the formulas compiled)"""
    r = compile(fs)
    if constant_reject(env, r, fs, sigs, kind):
        fs = [f for f in fs if not is_constant(f, sigs)]
        if not fs:
            raise Rejected()
        r = compile(fs)
        if constant_reject(env, r, fs, sigs, kind):
            raise Rejected()
    return r, fs


@functools.lru_cache(maxsize=None)
def capacity():
    """The extents the monitor is built with by default, and its engine numbers."""
    with open(REPO + "/monitors/c/src/internals/bounds.h") as f:
        text = f.read()
    return {m[1]: int(m[2]) for m in re.finditer(r"#define\s+(R2U2_\w+)\s+(\d+)\s*$", text, re.M)}, binary.engine_tags(REPO)


def fits(env, spec="spec.bin", aux=True):
    """Documented: a program beyond the bounds the monitor was built with needs a monitor built with larger ones.
    The cases stay far below them, but transformation passes may multiply a formula."""
    have, tags = capacity()
    try:
        need = binary.needs(binary.decode(env.read(spec, binary=True), tags))
    except (binary.Bad, OSError, UnicodeDecodeError):
        return True
    return all(v <= have.get(k, v) for k, v in need.items() if aux or "AUX" not in k)


def run_monitor(env, spec="spec.bin", trace="trace.csv", kind="release"):
    if not fits(env, spec, "aux" in kind):
        raise Rejected()
    m = env.monitor(spec, trace, kind)
    if m.timeout:
        raise Violation("the monitor did not terminate within 60 s")
    if m.rc != 0:
        raise Violation("the monitor failed (exit %d): %s" % (m.rc, text_tail(m.text)))
    return m


def verdicts(m):
    try:
        return logic.parse_verdicts(m.out)
    except ValueError as e:
        raise Violation("unreadable monitor output line: %s" % e)


def check_formulas(formulas, cols, n, v, base=0, complete=True):
    extra = set(v) - set(range(base, base + len(formulas)))
    if extra and base == 0:
        raise Violation("verdicts for formula ids %s that the specification does not have" % sorted(extra))
    for i, f in enumerate(formulas):
        seq = v.get(base + i, [])
        e = logic.check_verdicts(f, cols, n, seq)
        if e is None and complete:
            e = logic.check_complete(f, n, seq)
        if e:
            raise Violation("formula %d  %s\n%s\nverdicts: %s\ninputs: %s" % (
                base + i, logic.c2po(f), e, seq, {s: "".join(map(str, c[:n])) for s, c in cols.items() if s in logic.atoms(f)}))


def spec_labels(formulas, n):
    labs = []
    ops = {p[0] for f in formulas for p in logic.walk(f)}
    labs += ["op:" + o for o in sorted(ops)]
    w = max(logic.wpd(f) for f in formulas)
    labs.append("trace>window" if n > w else "trace<=window")
    nt = max(sum(1 for p in logic.walk(f) if p[0] in logic.FUTURE + logic.PAST) for f in formulas)
    labs.append("temporal-ops:%s" % (nt if nt < 4 else "4+"))
    d = max(nest(f) for f in formulas)
    labs.append("temporal-nesting:%s" % (d if d < 4 else "4+"))
    return labs


def nest(f):
    m = max([nest(c) for c in logic.children(f)], default=0)
    return m + (f[0] in logic.FUTURE + logic.PAST)


def both_values(v):
    for seq in v.values():
        if len({b for _, b in seq}) == 2:
            return True
    return False


def compile_formulas(env, fs, sigs, kind, extra_args=(), name="s.c2po", out="spec.bin", names=None, header="trace.csv", what="specification"):
    """Compile formulas over boolean inputs mapped by CSV header order; Rejected if one is constant."""
    text = fs if isinstance(fs, str) else logic.spec_text(fs, sigs, kind, names)
    env.write(name, text)
    if not env.exists(header):
        env.write(header, "#" + ",".join(sigs) + "\n")
    argv = ["--spec", name, "--trace", header, "-o", out] + list(extra_args)
    r = env.c2po(argv)
    if not isinstance(fs, str) and constant_reject(env, r, fs, sigs, kind):
        raise Rejected()
    if r.timeout:
        raise Violation("C2PO did not terminate on a valid %s\n%s" % (what, text))
    if r.rc != 0 or r.crashed:
        raise Violation("C2PO rejected a valid %s (exit %d; args %s)\n%s\n%s" % (what, r.rc, list(extra_args), text, text_tail(r.text)))
    if not env.exists(out):
        raise Violation("C2PO reported success but wrote no %s\n%s" % (out, text))
    return r


def check_traces(env, fs, traces, sigs, what=""):
    """Runs spec.bin on each trace and checks all verdicts; -> were both values reported on one of them?"""
    both = False
    for tr in traces:
        env.write("trace.csv", logic.csv_bool(tr["cols"], sigs, tr["n"]))
        v = verdicts(run_monitor(env))
        try:
            check_formulas(fs, tr["cols"], tr["n"], v)
        except Violation as ex:
            raise Violation("%s%s\ntrace:\n%s" % (what, ex, logic.csv_bool(tr["cols"], sigs, tr["n"])))
        both = both or both_values(v)
    return both


def drive(env, lines, kind="lib"):
    """Run the library client; -> list of ('V', mon, id, time, bool) | ('S', mon, rc) | ('L', mon, rc)."""
    env.calls["monitor"] += 1
    r = env.run([env.bins[kind]], input=("\n".join(lines) + "\n").encode())
    if r.timeout:
        raise Violation("the monitor library did not terminate within 60 s")
    if r.rc != 0:
        raise Violation("the monitor library client failed (exit %d): %s" % (r.rc, text_tail(r.text)))
    ev = []
    for l in r.out.split("\n"):
        w = l.split()
        if not w:
            continue
        if w[0] == "V":
            ev.append(("V", int(w[1]), int(w[2]), int(w[3]), w[4] == "T"))
        elif w[0] in "SL":
            ev.append((w[0], int(w[1]), int(w[2])))
        else:
            raise HarnessError("driver: " + l)
    return ev


def step_lines(cols, order, t, api="b"):
    return ["%s %d %d" % (api, i, cols[s][t]) for i, s in enumerate(order)] + ["step"]


# ---------------------------------------------------------------- full-language cases (lib/rich.py)

def rich_compile(env, case, argv=(), text=None):
    """Writes s.c2po and trace.csv, compiles; -> (program text, csv text, [(name, formula)], contracts, atom columns, types).
    Rejected if it is refused since a formula is constant."""
    import bz
    import rich
    el = rich.Elab(case)
    fs, contracts = el.formulas()
    types = rich.sig_types(case)
    n, cols, order = case["trace"]["n"], case["trace"]["cols"], case["trace"]["order"]
    acols = {k: bz.column(a, cols, n, types) for k, a in el.atoms.items()}
    if max(logic.size(f) for _, f in fs) > 120:
        raise Rejected()
    text = text or rich.program(case)
    env.write("s.c2po", text)
    csv = bz.csv(cols, order, types, n, style=case["trace"].get("style", 0))
    env.write("trace.csv", csv)
    r = env.c2po(["--spec", "s.c2po", "--trace", "trace.csv", "-o", "spec.bin"] + (["-bz"] if case["bz"] else []) + case.get("flags", []) + list(argv))
    if r.rc == 11 and "constant formula" in r.text and any(
            len({x for x in logic.truth(f, acols, n) if x is not None}) < 2 for _, f in fs):
        raise Rejected()
    if r.rc != 0 or r.crashed or r.timeout:
        raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, text_tail(r.text)))
    return text, csv, fs, contracts, acols, r
