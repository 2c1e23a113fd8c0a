#!/usr/bin/env python3
"""plant.py ID [--notest]: validates seeded/ID in a copy of /repo bound over /repo in a private
mount namespace: demo passes unpatched; patch applies, builds, stable tests pass, demo fails; then
runs the quick check of the property (and any extra ones named) and reports what catches it."""
import json, os, re, shutil, subprocess, sys
bid = sys.argv[1]
extra = [a for a in sys.argv[2:] if not a.startswith("--")]
src = "/verif/seeded/" + bid
meta = json.load(open(src + "/meta.json"))
work = "/tmp/pl/" + bid
shutil.rmtree(work, ignore_errors=True)
os.makedirs(work + "/log")
shutil.copytree("/repo", work + "/r", symlinks=True)
shutil.copytree(src, work + "/demo")
for f in ("patch.diff", "meta.json"):
    os.remove(work + "/demo/" + f)
checks = [meta["property"]] + extra
sc = """
mount --bind %(w)s/r /repo; mount --bind %(w)s/log /opt/vp/log
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD0 FAILED"
timeout 300 bash %(w)s/demo/demo.sh >%(w)s/d0.log 2>&1; echo "demo clean: $?"
git apply %(s)s/patch.diff || echo "APPLY FAILED"
bash /opt/vp/build.sh >%(w)s/b.log 2>&1 || echo "BUILD FAILED"
timeout 300 bash %(w)s/demo/demo.sh >%(w)s/d1.log 2>&1; echo "demo patched: $?"
%(t)s
cp -a /verif %(w)s/verif
cd %(w)s/verif
for p in %(c)s; do [ -f checks/$p.py ] && { timeout 900 python3-vt checks/$p.py >%(w)s/$p.log 2>&1; echo "$p: $? $(grep -c '^VIOLATION' %(w)s/$p.log)"; }; done
""" % dict(w=work, s=src, c=" ".join(checks),
           t="" if "--notest" in sys.argv else "bash /opt/vp/test.sh %s/o.json | tail -1" % work)
p = subprocess.run(["unshare", "-Urm", "bash", "-c", sc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(bid, "\n" + p.stdout.rstrip())
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("tests", []))) if True else set()
if os.path.exists(work + "/o.json"):
    d = json.load(open(work + "/o.json"))
    print("failed tests:", [t for t in d["failed"] if t != "monitors_c::test_lib"])
for sub in ("r", "verif"):
    shutil.rmtree(work + "/" + sub, ignore_errors=True)
