#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/registry.py (run by hand after changing the registry)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "sim"))
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py build",
     "checks": [{"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i, "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                 "technique": CHECKS[i]["technique"], "level": "exploration", "level_note": CHECKS[i]["note"]} for i in props if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check registered yet: its simulated world is still being built")} for i in props if i not in CHECKS]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
