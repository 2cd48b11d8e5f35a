#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (and checks it against run.py's PROPS)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
T = json.load(open(os.path.join(V, "tools", "manifest_table.json")))
checks = []
for pid in sorted(run.PROPS):
    t = T["checks"][pid]
    checks.append({"property": pid, "quick_cmd": "python3 run.py check %s --tier quick" % pid,
                   "thorough_cmd": "python3 run.py check %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": t["technique"], "level": t.get("level", "exploration"), "level_note": t["note"]})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": T["not_applicable"].get(p, "check not built yet")} for p in props if p not in run.PROPS]
m = {"version": 1, "setup_cmd": "python3 run.py build", "hooks": T["hooks"], "checks": checks, "not_applicable": na, "notes": T["notes"]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
