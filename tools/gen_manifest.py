#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(H + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="no check yet (under construction)"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"],
        technique=c.get("technique", "stateful property-based testing against a reference model, with shrinking"),
        level=c.get("level", "exploration"), level_note=c.get("level_note", "explored cases only: " + c["rule"])))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the system call layer, clock and pthread calls are interposed at link time (-Wl,--wrap). See DESIGN.md.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
