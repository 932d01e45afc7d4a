#!/usr/bin/env python3
"""writes MANIFEST.json from the registry (run by hand after adding a check)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry, vt
props = [json.loads(l) for l in open(os.path.join(vt.VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        tech, note = registry.NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, executors of the real code in harness/, drivers in lib/. No hooks in /repo: the real clock is replaced at link time, everything else is observed through public interfaces."}
json.dump(m, open(os.path.join(vt.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
