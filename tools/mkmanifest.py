#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from plan import PLAN
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PLAN: continue
    p = PLAN[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": p.get("technique", "TLA+ specification checked with TLC; TLC-generated behaviours replayed on the real code; recorded traces validated by TLC"),
        "level": p["level"], "level_note": p.get("note", "") or "Specification model-checked for all texts up to the stated length; the code is bound to it by TLC-derived test suites and trace validation, exhaustive within the bounds in the evidence file, sampled beyond. Trusts TLC, the Go toolchain, the frozen Unicode 17 data."})
na = [{"property": i, "reason": "not built yet"} for i in ids if i not in PLAN]
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "none: no hook is needed, everything is observable through the API", "enable": "go build -overlay adds the driver package inside the module; nothing in /repo is changed", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "tier and seed come from VERIF_TIER and VERIF_SEED; check.py PROPERTY --replay FILE re-runs one reported input"}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
