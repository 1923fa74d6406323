#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick python3 run.py check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {i}",
            "technique": c["technique"], "level": "exploration",
            "level_note": c["note"] or "No violation in the executions observed; nothing is claimed about executions not "
                                       "generated. Trusts the reference model in the harness, the generators and the compiler."})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors use the public API, reference models and sanitizer builds."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
