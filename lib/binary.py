"""An independent reader for R2U2 configuration binaries (docs/References/formats/r2u2_configuration_binary_files.md
and the instruction layouts of monitors/c/src/instructions), giving the assembly listing a binary stands for."""
import struct

BZ, TL, CG = 3, 4, 5
BZ_OPS = ["none", "iload", "fload", "iconst", "fconst", "store", "bwneg", "bwand", "bwor", "bwxor", "ieq", "feq", "ineq", "fneq",
          "igt", "fgt", "igte", "fgte", "ilt", "flt", "ilte", "flte", "ineg", "fneg", "iadd", "fadd", "isub", "fsub", "imul", "fmul",
          "idiv", "fdiv", "mod", "ipow", "fpow", "isqrt", "fsqrt", "iabs", "fabs", "prev", "ts"]
TL_OPS = {31: "nop", 30: "config", 29: "load", 28: "return", 27: "eventually", 26: "global", 25: "until", 24: "release", 23: "not",
          22: "and", 21: "or", 20: "implies", 17: "xor", 16: "equiv", 11: "once", 10: "hist", 9: "since", 8: "trigger"}
DIRECT, ATOMIC, SUB, NONE = 1, 0, 2, 3
TEMPORAL = {"eventually", "global", "until", "release", "once", "hist", "since", "trigger"}


class Bad(Exception):
    pass


def decode(data, tags):
    """-> dict(header, bz, tl, scq, temp, order, aux). tags: engine numbers {'BZ','TL','CG'}."""
    try:
        return _decode(data, tags)
    except (IndexError, struct.error):
        raise Bad("the binary ends inside an instruction")


def _decode(data, tags):
    out = {"bz": [], "tl": [], "scq": {}, "temp": {}, "order": [], "aux": []}
    off = data[0]
    out["header"] = data[1:off]
    if not out["header"].endswith(b"\0"):
        raise Bad("header is not null-terminated")
    while data[off] != 0:
        n, body = data[off], data[off + 1:off + data[off]]
        if len(body) != n - 1:
            raise Bad("the binary ends inside an instruction")
        kind = body[0]
        if kind == tags["BZ"]:
            if n != 19:
                raise Bad("booleanizer instruction of length %d" % n)
            raw, p2, ref, op = body[1:9], *struct.unpack("<IIB", body[9:])
            name = BZ_OPS[op]
            p1 = struct.unpack("<d", raw)[0] if name == "fconst" else struct.unpack("<i" if name == "iconst" else "<I", raw[:4])[0]
            out["bz"].append((ref, name, p1, p2))
            out["order"].append("BZ b%-2d %-6s %s %s" % (ref, name, p1, p2))
        elif kind == tags["TL"] or kind == tags["CG"]:
            cg = kind == tags["CG"]
            if cg:
                if body[1] != tags["TL"]:
                    raise Bad("configuration for engine %d" % body[1])
                body = body[1:]
            if len(body) != 16:
                raise Bad("temporal instruction of length %d" % n)
            v1, v2, ref, t1, t2, op = struct.unpack("<IIIBBB", body[1:])
            if op not in TL_OPS:
                raise Bad("unknown temporal opcode %d" % op)
            name = TL_OPS[op]
            if cg:
                if name != "config":
                    raise Bad("configuration instruction %s" % name)
                if t1 == ATOMIC:
                    if ref in out["scq"]:
                        raise Bad("queue %d configured twice" % ref)
                    if out["temp"]:
                        raise Bad("queue %d is configured after a temporal block" % ref)
                    out["scq"][ref] = (v1, t2 == ATOMIC)
                    out["order"].append("CG TL SCQ q%d |%d|" % (ref, v1))
                else:
                    if t1 != SUB or t2 != SUB or ref in out["temp"]:
                        raise Bad("bad temporal block configuration for %d" % ref)
                    out["temp"][ref] = (v1, v2)
                    out["order"].append("CG TL TEMP q%d [%d, %d]" % (ref, v1, v2))
            else:
                out["tl"].append((ref, name, t1, v1, t2, v2))
                def arg(t, v):
                    return {DIRECT: " %s" % v, ATOMIC: " a%d" % v, SUB: " n%d" % v, NONE: ""}[t]
                out["order"].append("TL n%-2d %-6s%s%s" % (ref, name, arg(t1, v1), arg(t2, v2)))
        else:
            raise Bad("unknown engine tag %d" % kind)
        off += n
    off += 1
    rest = data[off:]
    if not rest.endswith(b"\0"):
        raise Bad("no null byte at the end")
    body = rest[:-1]
    if body and body != b"\0":
        if not body.endswith(b"\0"):
            raise Bad("auxiliary statement without a null byte")
        out["aux"] = body[:-1].decode("utf-8").split("\0")
    out["end"] = body
    return out


def engine_tags(repo):
    """The engine numbers the monitor uses."""
    import re, glob
    text = "".join(open(f).read() for f in glob.glob(repo + "/monitors/c/src/engines/*.h"))
    out = {}
    for k in ("BZ", "TL", "CG"):
        m = re.search(r"R2U2_ENG_%s\s*=\s*(\w+)" % k, text)
        out[k] = int(m.group(1), 0) if m else {"BZ": BZ, "TL": TL, "CG": CG}[k]
    return out


def well_formed(d):
    """Raises Bad unless the monitor can run the program as it stands."""
    known = set()
    prevs = {ref for ref, op, _, _ in d["bz"] if op == "prev"}
    seen_prev = False
    refs = [i[0] for i in d["bz"]]
    if sorted(refs) != list(range(len(refs))):
        raise Bad("booleanizer results are not numbered 0..n-1: %s" % refs)
    atoms = {}
    binary = {"bwand", "bwor", "bwxor", "ieq", "feq", "ineq", "fneq", "igt", "fgt", "igte", "fgte", "ilt", "flt", "ilte", "flte", "iadd",
              "fadd", "isub", "fsub", "imul", "fmul", "idiv", "fdiv", "mod", "ipow", "fpow"}
    for ref, op, p1, p2 in d["bz"]:
        if op == "prev":
            seen_prev = True
            if p1 not in known or p2 not in set(refs):
                raise Bad("prev b%d reads b%s, b%s" % (ref, p1, p2))
        elif seen_prev:
            raise Bad("b%d is computed after a prev was updated" % ref)
        ops = [p1, p2] if op in binary else [p1] if op not in ("iload", "fload", "iconst", "fconst", "ts", "prev") else []
        for o in ops:
            if o not in known and o not in prevs:
                raise Bad("b%d (%s) reads b%s before it is computed" % (ref, op, o))
        if op == "store":
            if p2 in atoms:
                raise Bad("atomic a%d is stored twice" % p2)
            atoms[p2] = ref
        known.add(ref)
    tl = [i[0] for i in d["tl"]]
    if tl != list(range(len(tl))):
        raise Bad("temporal results are not numbered in order: %s" % tl)
    arity = {"load": 1, "return": 1, "not": 1, "eventually": 1, "global": 1, "once": 1, "hist": 1}
    formulas = []
    for ref, op, t1, v1, t2, v2 in d["tl"]:
        if op == "load":
            if t1 != ATOMIC:
                raise Bad("load n%d" % ref)
            if d["bz"] and v1 not in atoms:
                raise Bad("n%d loads a%d, which no store writes" % (ref, v1))
        else:
            for t, v in [(t1, v1), (t2, v2)][:arity.get(op, 2)]:
                if t == SUB and v >= ref:
                    raise Bad("n%d reads n%d" % (ref, v))
                if t not in (SUB, DIRECT):
                    raise Bad("n%d (%s) lacks an operand" % (ref, op))
        if op == "return":
            if t2 != DIRECT:
                raise Bad("return n%d" % ref)
            formulas.append(v2)
        if ref not in d["scq"]:
            raise Bad("no queue for n%d" % ref)
        size, temporal = d["scq"][ref]
        if size < 1:
            raise Bad("queue of n%d has %d slots" % (ref, size))
        if (op in TEMPORAL) != (ref in d["temp"]) or temporal != (op in TEMPORAL):
            raise Bad("temporal configuration of n%d (%s)" % (ref, op))
    if set(d["scq"]) - set(tl):
        raise Bad("queues without an instruction")
    return formulas


def needs(d):
    """Extents the monitor's arrays must have."""
    sig = [p1 for _, op, p1, _ in d["bz"] if op in ("iload", "fload")]
    at = [p2 for _, op, _, p2 in d["bz"] if op == "store"] + [v1 for _, op, _, v1, _, _ in d["tl"] if op == "load"]
    return {"R2U2_MAX_SIGNALS": max(sig, default=-1) + 1, "R2U2_MAX_ATOMICS": max(at, default=-1) + 1,
            "R2U2_MAX_BZ_INSTRUCTIONS": len(d["bz"]), "R2U2_MAX_TL_INSTRUCTIONS": len(d["tl"]),
            "R2U2_MAX_TEMPORAL_OPERATORS": len(d["temp"]), "R2U2_MAX_QUEUE_SLOTS": sum(s for s, _ in d["scq"].values()),
            "R2U2_AUX_MAX_FORMULAS": sum(a.startswith("F ") for a in d["aux"]), "R2U2_AUX_MAX_CONTRACTS": sum(a.startswith("C ") for a in d["aux"]),
            "R2U2_MAX_AUX_BYTES": sum(len(a.split(" ")[1]) + 1 for a in d["aux"])}


LOGIC = {"eventually": "F", "global": "G", "until": "U", "release": "R", "not": "!", "and": "&", "or": "|", "implies": "->", "xor": "xor",
         "equiv": "<->", "once": "O", "hist": "H", "since": "S", "trigger": "T"}


def formulas(d, atoms):
    """{formula id: formula as in lib/logic.py}, shared nodes shared; atoms: number -> name"""
    node, out = {}, {}
    for ref, op, t1, v1, t2, v2 in d["tl"]:
        args = [node[v] if t == SUB else ["t" if v else "f"] for t, v in ((t1, v1), (t2, v2)) if t in (SUB, DIRECT)]
        if op == "load":
            node[ref] = ["a", atoms[v1]]
        elif op == "return":
            out[v2] = args[0]
        elif ref in d["temp"]:
            node[ref] = [LOGIC[op]] + list(d["temp"][ref]) + args[:1 if op in ("eventually", "global", "once", "hist") else 2]
        else:
            node[ref] = [LOGIC[op]] + args[:1 if op == "not" else 2]
    return out
