#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (the table of properties) from specs.py and properties.jsonl."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from specs import SPECS
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    s = SPECS.get(p["id"])
    out.append(f"### {p['id']} {p['title']}\n")
    if not s:
        out.append("Not claimed yet; see MANIFEST.json.\n")
        continue
    out.append(f"*Method*: {s['technique']}. *Workload*: {s['rule']}\n\n*Oracle*: {s['note']}\n\n*Bound*: {s['cases']['quick']} random cases quick, up to "
               f"{s['cases']['thorough']} (or {s['deadline']['thorough'] // 60} minutes) thorough. *Must be observed*: {', '.join(s['require']) or 'cases run'}.\n")
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a, b = "## Properties\n", "## Findings\n"
i = t.index(a) + len(a)
j = t.index(b) if b in t else len(t)
tail = t[j:] if b in t else b + "\n"
open(p, "w").write(t[:i] + "\n" + "\n".join(out) + "\n" + tail)
