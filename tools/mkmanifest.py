#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py, properties.jsonl and the reasons below."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "checks")]
import registry

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    m = registry.CHECKS.get(p["id"])
    if m:
        c = "python3 check.py %s" % p["id"]
        checks.append(dict(property=p["id"], quick_cmd=c, thorough_cmd=c + " --tier thorough", technique=m.TECH, level=m.LEVEL, level_note=m.NOTE))
    else:
        na.append(dict(property=p["id"], reason=registry.NOT_APPLICABLE.get(p["id"], "no check for this property has been built yet")))
man = dict(version=1, setup_cmd="cd driver && cargo +nightly build --offline", checks=checks, not_applicable=na,
           notes="Static analysis of rustc MIR: see DESIGN.md. No hooks in /repo; the only commits there are fix: commits.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
