#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "contract-based deductive verification of the Go source (govc: SSA to SMT, per function, callers against callee contracts)"),
        "level": c.get("level", "proof"),
        "level_note": c["note"],
    })
na = [{"property": i, "reason": NA.get(i, "contracts not written yet")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
