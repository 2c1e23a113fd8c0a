import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import random, re
import bz, e2e, gen, logic, rich
from hypothesis import strategies as st

# arithmetic overflow and division by zero belong to the specification (the language manual requires constant divisors)
ENV = {**C_ENV, "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1", "ASAN_OPTIONS": "detect_leaks=0:exitcode=77"}


@st.composite
def spec(draw, c=None):
    c = draw(rich.cases(depth=draw(st.integers(1, 3)), more=True))
    c["flags"] = draw(st.sampled_from([[], [], ["--no-cse"], ["--no-rewrite"], ["--extops"]]))
    c["kind_of_monitor"] = draw(st.sampled_from(["mem", "mem_aux"]))
    c["seed"] = draw(st.integers(0, 2 ** 30))
    return c


def compiled(env, case):
    text = rich.program(case)
    if re.search(r"[/%]", text):
        raise Rejected()
    env.write("s.c2po", text)
    order = case["trace"]["order"]
    env.write("h.csv", "#" + ",".join(order) + "\n")
    r = env.c2po(["--spec", "s.c2po", "--trace", "h.csv", "-o", "spec.bin"] + (["-bz"] if case["bz"] else []) + case["flags"])
    if r.rc == 11 and "constant formula" in r.text:
        raise Rejected()
    if r.rc != 0:
        raise Violation("C2PO rejected a valid specification (exit %d)\n%s\n%s" % (r.rc, text, e2e.text_tail(r.text)))
    if r.out.count("\nTL ") > 250 or len(re.findall(r"^BZ ", r.out, re.M)) > 250:
        raise Rejected()
    return text, r.out


LINE = re.compile(r"^([^\s:]+:\d+,[TF]|Contract \S+ (inactive|invalid|verified) at \d+)$")


def execute(env, case, csv, what, stdin=False):
    env.write("t.csv", csv)
    env.calls["monitor"] += 1
    cmd = [env.bins[case["kind_of_monitor"]], "spec.bin"]
    if stdin:
        m = env.run(cmd, env=ENV, input=csv)
    else:
        m = env.run(cmd + ["t.csv"], env=ENV)
    if m.timeout or m.rc not in (0, 1):
        raise Violation("the monitor %s (exit %d)\n%s\n%s\n%r" % ("hangs" if m.timeout else "fails", m.rc, e2e.text_tail(m.err, 1500), what, csv[:3000]))
    bad = [l for l in m.out.split("\n") if l and not LINE.match(l)]
    if bad:
        raise Violation("output %r\n%s\n%r" % (bad[0], what, csv[:3000]))
    return m


NUMS = {"i": ["0", "1", "-1", "2147483647", "-2147483648", "65536", "-32769"], "b": ["0", "1"],
        "f": ["0.0", "-0.0", "1.5", "-1000000000000.0", "1.0e308", "-1.0e308", "0.00001", "0.0000099", "4.9e-324", "inf.", "1.0e400"]}


def run_values(env, case):
    text, _ = compiled(env, case)
    types = rich.sig_types(case)
    order = case["trace"]["order"]
    rnd = random.Random(case["seed"])
    n = rnd.choice([1, 5, 20, 60])
    csv = "#" + ",".join(order) + "\n"
    row = None
    for _ in range(n):
        if row is None or rnd.random() < 0.7:
            row = ",".join(rnd.choice(NUMS.get(types[s] if isinstance(types[s], str) else "i", NUMS["i"])) for s in order)
        csv += row + "\n"
    m = execute(env, case, csv.encode(), text)
    if m.rc != 0:
        raise Violation("the monitor failed (exit %d)\n%s\n%s" % (m.rc, text, csv))
    return {"nontrivial": ",T" in m.out and ",F" in m.out and n > 1, "labels": ["bz:%s" % case["bz"], case["kind_of_monitor"]]}


JUNK = [b"", b" ", b"x", b"-", b".", b"@", b"@@", b"@5", b"@ 3", b"@x 1", b"1e5", b"0x10", b"999999999999999999999", b"-99999999999999999999", b"1.2.3", b"nan.", b"\x00", b"\xff\xfe",
        b"%s%n", b"\"1\"", b"1;2", b"#", b"\r", b"\t0", b"0" * 400, b"9" * 400 + b".5", b"@4294967295", b"@99999999999 1"]


def mutate(rnd, rows):
    rows = list(rows)
    for _ in range(rnd.randint(1, 4)):
        k = rnd.randrange(len(rows) + 1)
        what = rnd.randrange(9)
        if what == 0 or not rows or k == len(rows):
            rows.insert(k, rnd.choice(JUNK))
            continue
        cells = rows[k].split(b",")
        j = rnd.randrange(len(cells))
        if what == 1:
            cells[j] = rnd.choice(JUNK)
        elif what == 2:
            cells = cells[:j]
        elif what == 3:
            cells += [rnd.choice([b"1", b"0", b"2.5"])] * rnd.choice([1, 5, 60, 250, 300, 2000, 5000])
        elif what == 4:
            cells[0] = b"@%d " % rnd.choice([0, 1, 3, 50, 2 ** 31, 2 ** 32 - 1]) + cells[0]
        elif what == 5:
            cells = [bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 10, 100])))]
        elif what == 6:
            cells = [b",".join(cells)[:rnd.randrange(1 + len(b",".join(cells)))]]
        elif what == 7:
            cells[j] = cells[j] + b"7" * rnd.choice([10, 8180, 8192, 20000])
        else:
            cells[j] = b""
        rows[k] = b",".join(cells)
    return rows


def run_garbage(env, case):
    text, _ = compiled(env, case)
    types = rich.sig_types(case)
    order, cols, n = case["trace"]["order"], case["trace"]["cols"], case["trace"]["n"]
    rnd = random.Random(case["seed"])
    rows = [",".join(bz.dec(cols[s][t]) if types[s] == "f" else "%d" % cols[s][t] for s in order).encode() for t in range(n)]
    head = b"#" + ",".join(order).encode()
    keep = rnd.randint(0, n)
    good = [head] + rows[:keep]
    bad = mutate(rnd, rows[keep:] or [b"1"])
    if not keep and rnd.random() < .3:
        good = []
    csv = b"\n".join(good + bad) + (b"\n" if rnd.random() < .8 else b"")
    m = execute(env, case, csv, text, stdin=rnd.random() < .2)
    if keep:
        ref = execute(env, case, b"\n".join(good) + b"\n", text)
        if not m.out.startswith(ref.out):
            raise Violation("what follows changed the output for the valid rows before it\n%s\n%r\n--- valid rows\n%s\n--- all\n%s" % (text, csv[:3000], ref.out, m.out[:2000]))
    return {"nontrivial": bool(m.out), "labels": ["bz:%s" % case["bz"], "keep:%s" % bool(keep), "rc:%d" % m.rc]}


def prepare(scratch, bins):
    src = os.path.join(REPO, "monitors", "c", "src")
    for name, fl in (("mem", []), ("mem_aux", ["-DR2U2_AUX_STRING_SPECS=1"])):
        bins[name] = build_monitor(os.path.join(scratch, "r2u2_" + name), src, "release",
                                   extra_flags=["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=signed-integer-overflow,shift"] + fl)


CHECK = Check("P21", [
    Part("values", spec, run_values, 1500, 20000, "random full-language programs without division; traces of extreme and special values, up to 60 steps"),
    Part("garbage", spec, run_garbage, 1500, 20000, "the same; traces with missing, surplus, empty, over-long and malformed cells, rows, bytes and event times after some valid rows"),
], kinds=(), rule="values: both verdict values printed over several steps; garbage: some verdict printed", prepare=prepare,
    assumptions=["AddressSanitizer and UndefinedBehaviorSanitizer detect the invalid accesses; arithmetic overflow, and with it shifts, and division by zero are excluded: they depend on the specification"])

if __name__ == "__main__":
    main(CHECK)
