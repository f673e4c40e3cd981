#!/usr/bin/env python3
"""writes MANIFEST.json from the list of checks and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS

props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "./check %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check %s --tier thorough" % i,
                       "technique": c.get("technique", "stateless model checking of the real code: depth-first enumeration of every choice sequence within bounds, compared step by step with a reference model"),
                       "level": "model_checking",
                       "level_note": "Every scenario within the bounds is executed on the code built from the working tree (%s). Bounds: %s. Trusted: the compiler, and the reference model in harness/." % (" and ".join(c["builds"]), c["bounds"] or "see DESIGN.md.")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check tools/checks.py && g++ --version", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use the public API and build /repo/src with their own flags. Each check also takes --replay FILE."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
