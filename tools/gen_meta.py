#!/usr/bin/env python3
"""Write properties.jsonl, MANIFEST.json and DESIGN.md (head + per-property part + tail)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P
root = os.path.dirname(here)
ps = sorted(P, key=lambda p: p["id"])
NA = []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in ps:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
for p in ps:
    for fn in p["files"]:
        assert os.path.exists("/repo/" + fn), (p["id"], fn)
json.dump({"version": 1, "setup_cmd": "sh tools/setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": "python3-vt checks/%s.py" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3-vt checks/%s.py" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
        "level_note": p["note"]} for p in ps],
    "not_applicable": NA,
    "notes": "No hooks in /repo are needed: everything is observed at the command line and the public library API. Replay a counterexample with python3-vt checks/PNN.py --replay FILE."},
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
head = open(os.path.join(here, "design_head.md")).read()
tail = open(os.path.join(here, "design_tail.md")).read()
body = "".join("### %s %s\n\n*Specified:* %s\n\n*Decided by:* %s. %s\n\n*Bounds and trust:* %s\n\n*Beyond the tests:* %s\n\n" % (
    p["id"], p["title"], p["statement"], p["technique"], p["design"], p["note"], p["why"]) for p in ps)
import glob
known = [json.loads(l) for l in open(os.path.join(root, "known_findings.jsonl")) if l.strip()]
is_open = [k for k in known if k.get("status") != "fixed"]
fixed = [k for k in known if k.get("status") == "fixed"]
defects = "Recorded, not repaired (%d):\n\n%s\nRepaired (%d), each by one `fix:` commit:\n\n%s" % (
    len(is_open), "".join("- %s: %s\n" % (k["property"], k["what"]) for k in is_open), len(fixed),
    "".join("- %s `%s` %s\n" % (k["property"], k["commit"], k["what"].split(k["commit"], 1)[1].strip()) for k in sorted(fixed, key=lambda k: k["property"])))
bugs = "".join("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"], d["needs"])
    for m in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))) for d in [json.load(open(m))])
tail = tail.replace("{DEFECTS}", defects).replace("{BUGS}", bugs)
open(os.path.join(root, "DESIGN.md"), "w").write(head + body + tail)
