#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {}
NA = {}
exec(open(os.path.join(V, "tools", "tech.py")).read())
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append(dict(property=i, reason=NA[i]))
        continue
    t, note = TECH[i]
    m["checks"].append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                            technique=t, level="model_checking", level_note=note))
m["notes"] = "Specifications: /verif/spec (TLA+, TLC). No hooks in /repo. KNOWN findings: /verif/KNOWN_FINDINGS."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
