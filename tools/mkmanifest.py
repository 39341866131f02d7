#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, "lib", "check_%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH[i][0], "level": "model_checking", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; conformance harness in harness/ executes scripts against the real code and logs, TLC validates the logs. No hooks in /repo."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
