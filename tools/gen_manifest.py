#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import registry
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    r = registry.INFO.get(p)
    if r is None:
        na.append({"property": p, "reason": registry.NOT_APPLICABLE.get(p, "no check has been built for it yet")})
        continue
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": r["technique"], "level": "model_checking",
                   "level_note": r["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; drivers in harness/ record what the real library does and TLC validates the traces."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
