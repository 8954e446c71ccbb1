#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no check has been built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md; defects found and repaired are in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
