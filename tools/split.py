#!/usr/bin/env python3
"""Narrows a rejected geometry observation to single rays or points: split.py REPLAY.json"""
import json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
o = json.load(open(sys.argv[1]))["observation"]
k = "rays" if "rays" in o else "pts"
c = check.Ctx("X", tempfile.mkdtemp())
check.judge(c, sys.argv[2] if len(sys.argv) > 2 else "GeoTrace", "Trace.cfg", [dict(o, **{k: [r]}) for r in o[k]], shards=1)
print(json.dumps(o["o"]))
for b in c.bad:
    print(json.dumps(b[k]))
