#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        note = "Exhaustive within the stated bounds: " + c["rule"] + ". Judged by a reference model in the harness, on executions of the real code compiled from /repo."
        if c.get("assumptions"):
            note += " Assumes: " + "; ".join(c["assumptions"]) + "."
        checks.append({"property": i, "quick_cmd": "python3 run_check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "stateless explicit-choice model checking of the implementation against a reference model"),
                       "level": c.get("level", "model_checking"), "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 run_check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses drive the public interfaces; platforms are simulated by headers in stubs/. Repairs: known_findings.txt."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed;", len(na), "not")
