#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in plan.PLAN: continue
    p = plan.PLAN[i]
    checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i, "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i, "technique": p.get("technique", plan.TECH), "level": p["level"], "level_note": p.get("note", plan.NOTE)})
na = [{"property": i, "reason": plan.NA.get(i, "check under construction")} for i in ids if i not in plan.PLAN]
json.dump({"version": 1, "setup_cmd": "bash analyzer/build.sh", "checks": checks, "not_applicable": na, "notes": "Static analysis only: see DESIGN.md. No hooks in /repo; fix: commits only."}, open(V + "/MANIFEST.json", "w"), indent=1)
