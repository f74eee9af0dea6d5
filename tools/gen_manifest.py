#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/specs.py and tools/claims.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/harness", V + "/tools"]
import specs, claims
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.CHECKS:
        t, level, note = claims.CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           technique=t, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=claims.NA.get(i, "no check has been built for it yet")))
m = dict(version=1, setup_cmd="python3 check.py --build " + " ".join(claims.SETUP),
         hooks=dict(guard="OPENCBDC_VERIF (unused: no hooks were needed in /repo)",
                    enable="nothing to enable; harnesses interpose at link time",
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes="check.py <id> builds the harness from /repo's working tree "
               "into /verif/build and runs it; --replay FILE re-executes a "
               "recorded counterexample.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
