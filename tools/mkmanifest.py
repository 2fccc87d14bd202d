#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py (and checks it against properties.jsonl)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in SPECS:
        s = SPECS[p]
        checks.append({"property": p, "quick_cmd": f"python3 tools/check.py {p} --tier quick", "thorough_cmd": f"python3 tools/check.py {p} --tier thorough",
                       "technique": s["technique"], "level": s["level"],
                       "level_note": s["note"] + " Says nothing about inputs or schedules the workload did not produce; eckit itself is not instrumented."})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every monitor sits at the public interfaces. Each check copies /repo's working tree to build/, builds it with sanitizers and runs it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
