import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
import bz, e2e, logic, rich
from hypothesis import strategies as st
FLAGS = [[], [], ["--no-cse"], ["--no-rewrite"], ["--extops"]]


@st.composite
def cases(draw):
    c = draw(rich.cases(depth=2, more=True))
    c["flags"] = draw(st.sampled_from(FLAGS))
    return c


def run(env, case):
    text, csv, fs, contracts, acols, r = e2e.rich_compile(env, case)
    n = case["trace"]["n"]
    what = "\n" + text + csv
    m = e2e.run_monitor(env, kind="aux")
    plain = e2e.run_monitor(env)
    # names: where the formula has none, the listing says which stands for its number
    names = {}
    for l in r.out.split("\n"):
        w = l.split(" ")
        if len(w) == 3 and w[0] == "F":
            names[int(w[2])] = w[1]
    for i, (lab, _) in enumerate(fs):
        if lab and names.get(i) != lab:
            raise Violation("formula %d is called %s, the listing calls it %s%s" % (i, lab, names.get(i), what))
    if sorted(names) != list(range(len(fs))) or len(set(names.values())) != len(fs):
        raise Violation("%d formulas, but the listing names %s%s" % (len(fs), names, what))
    ids = {v: k for k, v in names.items()}
    roles = {}
    for lab, first in contracts:
        roles[first] = (lab, "inactive", False)
        roles[first + 1] = (lab, "invalid", False)
        roles[first + 2] = (lab, "verified", True)
    numbered, status, want = [], [], []
    for l in m.out.split("\n"):
        if not l:
            continue
        w = l.split(" ")
        if w[0] == "Contract" and len(w) == 5 and w[3] == "at":
            status.append((w[1], w[2], int(w[4])))
            continue
        name, _, rest = l.rpartition(":")
        if name not in ids:
            raise Violation("verdict for an unknown name: %s%s" % (l, what))
        i = ids[name]
        numbered.append("%d:%s" % (i, rest))
        t, b = rest.split(",")
        if i in roles and (b == "T") == roles[i][2]:
            want.append(roles[i][:2] + (int(t),))
    if numbered != [l for l in plain.out.split("\n") if l]:
        raise Violation("named verdicts are not those of the plain monitor%s\n%s\n--- plain\n%s" % (what, m.out, plain.out))
    if status != want:
        raise Violation("contract statuses %s, want %s%s\n%s" % (status, want, what, m.out))
    v = e2e.verdicts(plain)
    try:
        e2e.check_formulas([f for _, f in fs], acols, n, v)
    except Violation as ex:
        raise Violation("%s%s" % (ex, what))
    # per contract and time: exactly one status, the right one
    for lab, first in contracts:
        at = {i: dict(_steps(v.get(first + i, []))) for i in range(3)}
        for t in range(n):
            got = [s for i, s, b in ((0, "inactive", False), (1, "invalid", False), (2, "verified", True)) if at[i].get(t) is b]
            if len(got) > 1 or (not got and all(t in at[i] for i in range(3))):
                raise Violation("contract %s at %d: %s%s" % (lab, t, got, what))
    return {"nontrivial": bool(contracts) and len({s for _, s, _ in status}) > 1 and len(rich.sections(case)) > 1,
            "labels": ["status:" + s for s in sorted({s for _, s, _ in status})] + ["sections:" + "+".join(k for k, _ in rich.sections(case))]}


def _steps(seq):
    prev = -1
    for t, b in seq:
        for u in range(prev + 1, t + 1):
            yield u, b
        prev = t


CHECK = Check("P14", [
    Part("contracts", cases, run, 2400, 30000, "random programs with up to 3 further sections of either kind, labelled formulas and contracts; monitor with and without auxiliary strings"),
], kinds=("release", "aux"), rule="non-trivial: several sections, at least one contract, at least two kinds of contract status along the trace; distinct by the whole case",
    assumptions=["reference models as for P06 and P07"])

if __name__ == "__main__":
    main(CHECK)
