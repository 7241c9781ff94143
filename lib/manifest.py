#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan and the properties."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p in plan.PROPERTIES:
    if p not in plan.READY:
        continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": plan.TECHNIQUE, "level": "model_checking", "level_note": plan.note(p)})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": plan.NOT_APPLICABLE,
     "notes": "No hooks in /repo: everything is observed through its public API. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
