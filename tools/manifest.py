#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        c = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "bash check.sh " + p,
                       "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
