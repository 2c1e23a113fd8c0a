#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: appends a repaired defect to known_findings.jsonl."""
import json, os, sys
p, c, w = sys.argv[1:]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl"), "a") as f:
    f.write(json.dumps({"property": p, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
