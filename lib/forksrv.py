"""C2PO fork server.  Run by the repository's own Python (never by the harness's).

Imports /repo's compiler once and then, for every request on stdin (one JSON
object per line), forks a child that runs compiler/c2po.py exactly as
`python3 c2po.py ARGV` would: fresh __main__ namespace, its own cwd, its own
stdout/stderr.  Nothing the child does survives into the next request.
"""
import json
import os
import select
import signal
import sys
import traceback


def main():
    repo = sys.argv[1]
    comp = os.path.join(repo, "compiler")
    sys.path.insert(0, comp)
    path = os.path.join(comp, "c2po.py")
    with open(path) as f:
        code = compile(f.read(), path, "exec")
    import argparse  # noqa: F401
    # Warm the imports (modules only; c2po.py itself runs per request).
    import c2po.main  # noqa: F401
    import c2po.sat  # noqa: F401
    import c2po.log  # noqa: F401

    proto_in = os.fdopen(os.dup(0), "rb")
    proto_out = os.fdopen(os.dup(1), "wb")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    proto_out.write(b'{"ready": true}\n')
    proto_out.flush()

    for line in iter(proto_in.readline, b""):
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            status = 98
            try:
                os.setpgid(0, 0)
                proto_in.close()
                os.close(proto_out.fileno())
                os.chdir(req["cwd"])
                fo = os.open(req["out"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                fe = os.open(req["err"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                os.dup2(fo, 1)
                os.dup2(fe, 2)
                if "stdin" in req:
                    fi = os.open(req["stdin"], os.O_RDONLY)
                    os.dup2(fi, 0)
                sys.stdin = open(0, "r", closefd=False)
                sys.stdout = open(1, "w", closefd=False)
                sys.stderr = open(2, "w", closefd=False, buffering=1)
                sys.argv = ["c2po.py"] + req["argv"]
                sys.path[0] = comp
                glb = {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__}
                if req.get("noise"):
                    import random
                    rng = random.Random(req["noise"])
                    heap = [object() if rng.random() < .5 else [None] * rng.randrange(12) for _ in range(4000)]
                    heap = [x for x in heap if rng.random() < .6] + [{}]
                    rng.shuffle(heap)
                import types
                m = types.ModuleType("__main__")
                m.__dict__.update(glb)
                sys.modules["__main__"] = m
                try:
                    exec(code, m.__dict__)
                    status = 0
                except SystemExit as e:
                    if e.code is None:
                        status = 0
                    elif isinstance(e.code, int):
                        status = e.code & 0xFF
                    else:
                        sys.stderr.write(str(e.code) + "\n")
                        status = 1
                except BaseException:
                    traceback.print_exc()
                    status = 1
                sys.stdout.flush()
                sys.stderr.flush()
            except BaseException:
                try:
                    traceback.print_exc()
                except BaseException:
                    pass
            finally:
                os._exit(status)
        pfd = os.pidfd_open(pid)
        p = select.poll()
        p.register(pfd, select.POLLIN)
        timed_out = not p.poll(int(req.get("timeout", 60) * 1000))
        if timed_out:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, st = os.waitpid(pid, 0)
        os.close(pfd)
        rc = os.waitstatus_to_exitcode(st)
        proto_out.write(json.dumps({"rc": rc, "timeout": timed_out}).encode() + b"\n")
        proto_out.flush()


main()
