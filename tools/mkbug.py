"""mk(id, prop, needs, breaks, edits, files): writes seeded/ID (edits: [(path, old, new)], each old unique)."""
import json, os, shutil, subprocess, tempfile
DEMO = r'''#!/bin/bash
# Run in /repo after the build: exit 0 iff the output is as it has to be.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp "$here"/* "$d"; cd "$d"
c2po() { python3 "$repo/compiler/c2po.py" "$@"; }
r2u2() { "$repo/monitors/c/build/r2u2" "$@"; }
'''
def mk(bid, prop, needs, breaks, edits, demo, files={}):
    tmp = tempfile.mkdtemp(dir="/tmp")
    subprocess.run(["git", "-C", "/tmp/fix", "worktree", "add", "-q", "--detach", tmp + "/w"], check=True)
    try:
        for path, old, new in edits:
            p = tmp + "/w/" + path
            s = open(p).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", tmp + "/w", "diff"], check=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/tmp/fix", "worktree", "remove", "--force", tmp + "/w"], check=True)
        shutil.rmtree(tmp)
    d = "/verif/seeded/" + bid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO + demo)
    for n, t in files.items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

def verdict_demo(flags, want="want"):
    return '''c2po --spec s.c2po --trace t.csv -o s.bin %s >c2po.log 2>&1 || { cat c2po.log; exit 1; }
r2u2 s.bin t.csv > got || exit 1
diff %s got
''' % (flags, want)

def csv(cols, rows):
    return "# " + ",".join(cols) + "\n" + "".join(",".join(str(x) for x in r) + "\n" for r in rows)
