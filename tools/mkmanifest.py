#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/jobs.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
import jobs
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile /repo's unmodified sources in several configurations", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in jobs.PROPS:
        p = jobs.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", [x["property"] for x in m["not_applicable"]])
