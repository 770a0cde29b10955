#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below and the properties themselves."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
exec(open(os.path.join(here, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": "bash tools/check.sh %s quick" % i,
            "thorough_cmd": "bash tools/check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification of the Go code (govc: verification conditions from SSA, z3/cvc5)",
            "level": "proof",
            "level_note": CLAIMED[i],
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: contracts are added to the packages through a build overlay, /repo carries none of them."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
