#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py (claimed = has a function in checks.py)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cs, na = [], []
for p in props:
    i = p["id"]
    if hasattr(checks, i):
        s = checks.spec(i, "quick")
        cs.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s --thorough" % i,
                   "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": cs, "not_applicable": na,
           "notes": "Header-only library: every check compiles its monitors against /repo/include of the current tree. No hooks are needed in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "claimed", len(na), "not claimed")
