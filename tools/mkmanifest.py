#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks there are."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from techniques import TECH
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    t = TECH.get(p["id"]) or TECH.get(p["id"][0])
    if t is None:
        na.append(dict(property=p["id"], reason="no check yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
                       technique=t[0], level="model_checking", level_note=t[1]))
json.dump(dict(version=1, setup_cmd="sh tools/setup.sh", hooks=dict(guard="none", enable="no hooks in /repo: instrumentation is an overlay made at check time (harness/instr)", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
