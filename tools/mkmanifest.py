#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and registry.py.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t = registry.ABOUT[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           technique="TLA+/TLC: " + t[0], level="model_checking", level_note=t[1]))
    else:
        na.append(dict(property=i, reason=registry.NOT_YET.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="verif (unused: the exported API is observable enough)", enable="no hooks: drivers in /verif/harness import /repo through a replace directive", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Specifications in spec/ (TLA+), drivers in harness/, engine check.py, what each check runs in registry.py; see DESIGN.md")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
