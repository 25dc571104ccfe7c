#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from mc/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
DEF_TECH = "stateless bounded-exhaustive exploration of the real code against a reference model"
for p in props:
    i = p["id"]
    c = registry.CHECKS.get(i)
    if not c:
        na.append({"property": i, "reason": registry.NA.get(i, "no check built yet")}); continue
    checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                   "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": c.get("technique", DEF_TECH), "level": c.get("level", "model_checking"),
                   "level_note": "Every execution within these bounds is run on the real code and compared with the oracle: "
                                 + c["bounds"]["quick"] + ". " + c.get("note", "Trusts the reference model in checks/%s.cpp." % i)})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the public interface of the code built from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
