#!/usr/bin/env python3
"""Writes MANIFEST.json from the catalog and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import CATALOG
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
na = {}
checks = []
for i in ids:
    if i not in CATALOG:
        na[i] = na.get(i, "no check yet")
        continue
    c = CATALOG[i]
    checks.append({"property": i, "quick_cmd": "python3 lib/check.py %s quick" % i, "thorough_cmd": "python3 lib/check.py %s thorough" % i,
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
     "notes": "No hooks in /repo: the checker interposes on libc at link time (objcopy --redefine-syms)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
