#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of generators present."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = json.load(open(os.path.join(here, "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "rc/gens/%s.py" % i.lower())) and i in TECH:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": TECH[i],
            "level": "exploration",
            "level_note": "generated-input search (Hypothesis) against the oracle described in DESIGN.md; shows absence of "
            "violations on the explored cases only; trusts the oracle, CPython/PyPy, numpy and pandas",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 setup_check.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Property-based testing: Hypothesis (CPython) generates case descriptions, a PyPy worker runs the real code of /repo "
    "and decides them. No hooks in /repo. Replay a violation with: python3 check.py --replay FILE",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
