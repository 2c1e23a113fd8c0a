"""Shared machinery: scratch space, monitor builds, the C2PO fork server, and the
Hypothesis-driven campaign runner every check uses (see DESIGN.md, section 2)."""
import atexit
import glob
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python3"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"

C_ENV = {
    "HOME": "/root",
    "LANG": "C.UTF-8",
    "LC_ALL": "C.UTF-8",
    "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONPYCACHEPREFIX": "/nonexistent-r2v",  # never run stale bytecode
    "PYTHONHASHSEED": "0",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0:exitcode=78",
}


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The machinery (not the code under test) failed."""


class Rejected(Exception):
    """The case is outside the property's domain (counted, never a failure)."""


@dataclass
class Result:
    rc: int
    out: str
    err: str
    timeout: bool = False

    @property
    def text(self):
        return self.out + self.err

    @property
    def crashed(self):
        """Python traceback, signal, or the catch-all 'internal' error path."""
        return (
            self.rc < 0
            or "Traceback (most recent call last)" in self.text
            or "internal" in self.text.lower() and "unexpected error" in self.text
        )


def new_scratch():
    d = tempfile.mkdtemp(prefix="r2v-", dir="/dev/shm" if os.path.isdir("/dev/shm") and shutil.disk_usage("/dev/shm").free > 1 << 30 else None)
    return d


# ---------------------------------------------------------------- monitor builds

INCS = ["", "cli", "internals", "instructions", "engines", "memory"]
BASE_FLAGS = ["-std=c99", "-D_POSIX_C_SOURCE=200112L", "-w"]
# kind -> (compiler, flags, with cli main?)
KINDS = {
    "release": ("gcc", ["-O2"], True),
    "aux": ("gcc", ["-O2", "-DR2U2_AUX_STRING_SPECS=1"], True),
    # -fsanitize-recover=shift...: known findings are excluded by the check, not by flags
    "asan": ("gcc", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], True),
    "asan_aux": ("gcc", ["-O1", "-g", "-DR2U2_AUX_STRING_SPECS=1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], True),
    "lib": ("gcc", ["-O2"], False),
    "lib_asan": ("gcc", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], False),
}


def build_monitor(out, srcdir, kind, extra_src=(), extra_flags=()):
    cc, flags, with_main = KINDS[kind]
    srcs = sorted(glob.glob(os.path.join(srcdir, "**", "*.c"), recursive=True))
    if not with_main:
        srcs = [s for s in srcs if os.sep + "cli" + os.sep not in s]
    incs = []
    for r, _, _ in os.walk(srcdir):
        incs += ["-I", r]
    cmd = [cc] + BASE_FLAGS + flags + list(extra_flags) + incs + srcs + list(extra_src) + ["-o", out, "-lm"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={**os.environ, "LC_ALL": "C.UTF-8"})
    if p.returncode != 0:
        raise HarnessError("monitor build failed (%s):\n%s" % (kind, p.stdout[-4000:]))
    return out


# ---------------------------------------------------------------- environment


class Env:
    """Per-worker handle on the code under test."""

    def __init__(self, scratch, bins, name="w"):
        self.root = os.path.join(scratch, name)
        os.makedirs(self.root, exist_ok=True)
        self.bins = bins
        self._srvs = {}
        self.calls = {"c2po": 0, "monitor": 0}
        self.noise = 0
        self._n = 0
        self.dir = None
        self.fresh()

    # -- files
    def fresh(self):
        """A new empty case directory."""
        if self.dir and os.path.isdir(self.dir):
            shutil.rmtree(self.dir, ignore_errors=True)
        self._n += 1
        self.dir = os.path.join(self.root, "c%d" % self._n)
        os.makedirs(self.dir)
        return self.dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        p = self.path(name)
        mode = "wb" if isinstance(data, bytes) else "w"
        with open(p, mode, **({} if mode == "wb" else {"encoding": "utf-8", "errors": "surrogateescape", "newline": ""})) as f:
            f.write(data)
        return p

    def read(self, name, binary=False):
        p = self.path(name)
        if not os.path.exists(p):
            return None
        with open(p, "rb") as f:
            b = f.read()
        return b if binary else b.decode("utf-8", "replace")

    def exists(self, name):
        return os.path.exists(self.path(name))

    # -- C2PO
    def _server(self, hashseed=None):
        if hashseed not in self._srvs:
            env = dict(C_ENV) if hashseed is None else {**C_ENV, "PYTHONHASHSEED": str(hashseed)}
            srv = subprocess.Popen(
                [VENV_PY, "-X", "utf8", os.path.join(VERIF, "lib", "forksrv.py"), REPO],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=self.root,
                stderr=open(os.path.join(self.root, "srv.err"), "w"),
            )
            line = srv.stdout.readline()
            if not line:
                raise HarnessError("fork server did not start: " + open(os.path.join(self.root, "srv.err")).read()[-2000:])
            self._srvs[hashseed] = srv
        return self._srvs[hashseed]

    def c2po(self, argv, timeout=60, stdin=None, hashseed=None, noise=0, cwd=None):
        """hashseed, noise: hash randomisation and heap layout of the compiler's process."""
        s = self._server(hashseed)
        self.calls["c2po"] += 1
        o, e = os.path.join(self.root, ".out"), os.path.join(self.root, ".err")
        req = {"argv": [str(a) for a in argv], "cwd": cwd or self.dir, "timeout": timeout, "out": o, "err": e, "noise": noise or self.noise}
        if stdin is not None:
            req["stdin"] = self.write(".stdin", stdin)
        s.stdin.write(json.dumps(req).encode() + b"\n")
        s.stdin.flush()
        line = s.stdout.readline()
        if not line:
            raise HarnessError("fork server died: " + open(os.path.join(self.root, "srv.err")).read()[-2000:])
        r = json.loads(line)
        res = Result(r["rc"], _slurp(o), _slurp(e), r["timeout"])
        if res.rc == 98:
            raise HarnessError("fork server child failed: " + res.err[-2000:])
        return res

    def c2po_process(self, argv, env=None, timeout=120):
        """The same, as a real `python3 c2po.py` process."""
        self.calls["c2po"] += 1
        e = dict(C_ENV)
        e.update(env or {})
        return self.run([VENV_PY, os.path.join(REPO, "compiler", "c2po.py")] + [str(a) for a in argv], timeout=timeout, env=e)

    # -- monitor
    def run(self, cmd, timeout=60, env=None, input=None):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.dir,
                               stdin=subprocess.DEVNULL if input is None else None, input=input,
                               env=env or C_ENV, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            return Result(-99, (ex.stdout or b"").decode("utf-8", "replace"), (ex.stderr or b"").decode("utf-8", "replace"), True)
        return Result(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"))

    def monitor(self, spec="spec.bin", trace="trace.csv", kind="release", timeout=60, input=None):
        self.calls["monitor"] += 1
        cmd = [self.bins[kind], spec] + ([trace] if trace else [])
        return self.run(cmd, timeout=timeout, input=input)

    def close(self):
        for srv in self._srvs.values():
            try:
                srv.stdin.close()
                srv.wait(5)
            except Exception:
                srv.kill()
            srv.stdout.close()
        self._srvs = {}


def _slurp(p):
    try:
        with open(p, "rb") as f:
            return f.read().decode("utf-8", "replace")
    except FileNotFoundError:
        return ""


# ---------------------------------------------------------------- campaigns


@dataclass
class Part:
    """One generated-input campaign of a check."""
    name: str
    strategy: object  # () -> hypothesis strategy producing a JSON-able case
    run: object  # (env, case) -> dict(nontrivial=bool, labels=[...])
    quick: int  # cases in the quick tier (total over workers)
    thorough: int
    rule: str = ""
    workers: int = 8


@dataclass
class Check:
    prop: str
    parts: list
    kinds: tuple = ("release",)
    rule: str = ""
    technique: str = ""
    assumptions: list = field(default_factory=list)
    prepare: object = None  # (scratch, bins) -> None, runs once in the parent
    regressions: list = field(default_factory=list)  # [(part name, case)]


class _Stop(BaseException):
    pass


def uniform_draws():
    """Hypothesis 6.170 draws bounded integers (and so the choices of sampled_from and one_of) from a
    distribution that strongly favours small values, and mixes in constants found in the harness's own
    source. Generators here state their own weights, so draw uniformly."""
    from hypothesis.internal.conjecture.providers import HypothesisProvider as H
    old = H._draw_integer_from_distribution

    def draw(self, lo, hi):
        if lo is None or hi is None:
            return old(self, lo, hi)
        return self._random.randint(lo, hi)
    H._draw_integer_from_distribution = draw
    H._maybe_draw_constant = lambda self, *a, **k: None
    # ... and fresh cases only: by default several of every six cases are an earlier one with parts copied over
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    ConjectureRunner.generate_mutations_from = lambda self, data: None


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _worker(check, part_name, wid, nworkers, count, seed, scratch, bins, outpath, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings, Verbosity

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    part = [p for p in check.parts if p.name == part_name][0]
    env = Env(scratch, bins, "%s-w%d" % (part.name, wid))
    stats = {"evaluations": 0, "rejected": 0, "nontrivial": [], "labels": {}, "samples": [], "violation": None,
             "error": None, "cut": False}
    nontriv = set()
    best = {"size": None, "case": None, "msg": None, "first": None}
    known = [k for k in load_known() if k["property"] == check.prop and k.get("status") != "fixed" and k.get("part") == part.name]
    known_cases = {case_key(k["case"]) for k in known if "case" in k}

    def body(case):
        now = time.time()
        if now > deadline:
            stats["cut"] = True
            raise _Stop()
        if best["first"] is not None and now - best["first"] > 45:
            raise _Stop()
        if case_key(case) in known_cases:
            return
        env.fresh()
        try:
            stats["evaluations"] += 1
            info = part.run(env, case) or {}
        except Rejected:
            stats["rejected"] += 1
            return
        except Violation as v:
            size = len(json.dumps(case))
            if best["first"] is None:
                best["first"] = time.time()
            if best["size"] is None or size < best["size"]:
                best.update(size=size, case=case, msg=str(v))
            raise
        if best["first"] is not None:
            return
        if info.get("nontrivial", True):
            k = info.get("key") or case_key(case)
            if k not in nontriv:
                nontriv.add(k)
                if len(stats["samples"]) < 2 and len(nontriv) % 7 == 3:
                    stats["samples"].append({"part": part.name, "case": case, "note": info.get("note", "")})
        for lab in info.get("labels", ()):
            stats["labels"][lab] = stats["labels"].get(lab, 0) + 1

    uniform_draws()
    t = given(part.strategy())(body)
    t = settings(max_examples=max(1, count), database=None, deadline=None, print_blob=False,
                 suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                 phases=(Phase.generate, Phase.shrink), verbosity=Verbosity.quiet)(t)
    t = hypothesis.seed(seed)(t)
    try:
        t()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException as ex:  # harness trouble
        # A Flaky report still carries a recorded violation; the parent re-confirms it.
        if best["case"] is None:
            stats["error"] = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-6000:]
    finally:
        env.close()
    if best["case"] is not None:
        stats["violation"] = {"case": best["case"], "msg": best["msg"], "part": part.name}
    stats["nontrivial"] = sorted(nontriv)
    stats["calls"] = env.calls
    with open(outpath + ".tmp", "w") as f:
        json.dump(stats, f)
    os.rename(outpath + ".tmp", outpath)


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    out.append(json.loads(line))
    return out


def run_case(check, part_name, env, case):
    """-> None, or the violation text."""
    part = [p for p in check.parts if p.name == part_name][0]
    env.fresh()
    try:
        part.run(env, case)
    except Rejected:
        return None
    except Violation as v:
        return str(v)
    return None


def main(check):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--show", action="store_true")
    args = ap.parse_args()
    t0 = time.time()
    scratch = new_scratch()

    def cleanup():
        shutil.rmtree(scratch, ignore_errors=True)

    atexit.register(cleanup)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    os.umask(0o022)
    try:
        rc = _main(check, args, scratch, t0)
    except HarnessError as ex:
        print("HARNESS-ERROR: %s" % ex)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    cleanup()
    os._exit(rc)


def _main(check, args, scratch, t0):
    bins = {}
    import concurrent.futures as cf
    src = os.path.join(REPO, "monitors", "c", "src")
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {}
        for k in check.kinds:
            out = os.path.join(scratch, "r2u2-" + k)
            extra = () if KINDS[k][2] else (os.path.join(VERIF, "lib", "driver.c"),)
            futs[k] = ex.submit(build_monitor, out, src, k, extra)
        for k, f in futs.items():
            bins[k] = f.result()
    if check.prepare:
        check.prepare(scratch, bins)

    env = Env(scratch, bins, "main")
    if args.replay:
        rep = json.load(open(args.replay))
        msg = run_case(check, rep["part"], env, rep["case"])
        env.close()
        if msg:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (check.prop, args.replay))
            return 1
        print("replay: no violation")
        return 0

    # listed findings: reproduce each, report it, never fail on it
    for k in load_known():
        if k["property"] != check.prop:
            continue
        if k.get("status") == "fixed":
            if "case" in k:
                msg = run_case(check, k["part"], env, k["case"])
                if msg:
                    return _report(check, args, t0, [], {"case": k["case"], "msg": msg, "part": k["part"]}, env)
            continue
        msg = run_case(check, k["part"], env, k["case"])
        if msg:
            print("KNOWN-FINDING: property=%s %s" % (check.prop, k["what"]))
        else:
            print("note: listed finding no longer reproduces: %s" % k["what"])
    for pn, case in check.regressions:
        msg = run_case(check, pn, env, case)
        if msg:
            return _report(check, args, t0, [], {"case": case, "msg": msg, "part": pn}, env)

    limit = 420 if TIER == "quick" else 780
    deadline = t0 + limit
    results = []
    violation = None
    for part in check.parts:
        if args.part and part.name != args.part:
            continue
        total = part.quick if TIER == "quick" else part.thorough
        total = max(1, int(total * args.scale))
        nw = min(part.workers, total)
        procs = []
        ctx = mp.get_context("fork")
        for w in range(nw):
            cnt = total // nw + (1 if w < total % nw else 0)
            seed = int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (SEED, check.prop, part.name, w)).encode()).digest()[:8], "big")
            outp = os.path.join(scratch, "res-%s-%d.json" % (part.name, w))
            p = ctx.Process(target=_worker, args=(check, part.name, w, nw, cnt, seed, scratch, bins, outp, deadline))
            p.start()
            procs.append((p, outp))
        merged = {"part": part.name, "evaluations": 0, "rejected": 0, "nontrivial": set(), "labels": {}, "samples": [], "cut": False, "calls": {}, "rule": part.rule}
        errors = []
        viols = []
        for p, outp in procs:
            p.join()
            if not os.path.exists(outp):
                errors.append("worker died (exit %s)" % p.exitcode)
                continue
            s = json.load(open(outp))
            merged["evaluations"] += s["evaluations"]
            merged["rejected"] += s["rejected"]
            merged["nontrivial"].update(s["nontrivial"])
            merged["cut"] |= s["cut"]
            merged["samples"] += s["samples"]
            for k, v in s["labels"].items():
                merged["labels"][k] = merged["labels"].get(k, 0) + v
            for k, v in s["calls"].items():
                merged["calls"][k] = merged["calls"].get(k, 0) + v
            if s["error"]:
                errors.append(s["error"])
            if s["violation"]:
                viols.append(s["violation"])
        results.append(merged)
        viols.sort(key=lambda v: len(json.dumps(v["case"])))
        for v in viols:
            # confirm outside Hypothesis, in a fresh environment
            e2 = Env(scratch, bins, "confirm%d" % len(errors))
            msg = None
            t1 = time.time()
            for k in range(40):  # a failure may depend on the order of a set, that is, on addresses
                e2.noise = k
                msg = run_case(check, v["part"], e2, v["case"])
                if msg or k > 3 and time.time() - t1 > 40:
                    break
            e2.close()
            if msg:
                v["msg"] = msg
                violation = v
                break
            errors.append("violation did not reproduce: %s\n%s" % (v["msg"], json.dumps(v["case"])))
        if violation:
            break
        if errors:
            env.close()
            raise HarnessError("\n".join(errors[:3]))
        if args.show:
            print(part.name, {k: (len(v) if k == "nontrivial" else v) for k, v in merged.items() if k not in ("samples", "rule")})
    return _report(check, args, t0, results, violation, env)


def _report(check, args, t0, results, violation, env):
    env.close()
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    samples = []
    for r in results:
        samples += r["samples"][:3]
    cov = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": sum(len(r["nontrivial"]) for r in results),
        "rule": check.rule,
        "samples": samples[:12],
        "parts": [{
            "name": r["part"], "evaluations": r["evaluations"], "out_of_domain": r["rejected"],
            "distinct_nontrivial": len(r["nontrivial"]), "classes": r["labels"], "time_cut": r["cut"],
            "runs": r["calls"], "rule": r["rule"]} for r in results],
    }
    if violation:
        cov["evaluations"] = max(1, cov["evaluations"])
        if not cov["samples"]:
            cov["samples"] = [violation]
    ev = {
        "property": check.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration",
        "coverage": cov, "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if not args.part:
        p = os.path.join(ev_dir, check.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)
    print("%s: %d cases, %d distinct non-trivial, %.1fs" % (check.prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    if violation:
        rd = os.path.join(ev_dir, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s.json" % (check.prop, case_key(violation["case"])))
        with open(rp, "w") as f:
            json.dump({"property": check.prop, "part": violation["part"], "case": violation["case"], "message": violation["msg"]}, f, indent=1)
        print(violation["msg"])
        print("replay with: python3-vt /verif/checks/%s.py --replay %s" % (check.prop, rp))
        print("VIOLATION property=%s replay=%s" % (check.prop, rp))
        return 1
    return 0
