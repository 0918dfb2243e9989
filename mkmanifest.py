#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(os.path.join(H, "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo are needed: everything is observed at the API, at the wire and by the race detector. check.py builds harness/ (Go) with -race against /repo's working tree through a replace directive."}
for p in props:
    i = p["id"]
    if i in T:
        t = T[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": t["technique"], "level": t.get("level", "exploration"), "level_note": t["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is not built yet"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
