#!/usr/bin/env python3
"""writes MANIFEST.json from tools/units.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from units import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks = []
for p in ids:
    if p not in PROPS:
        continue
    c = PROPS[p]
    d = {
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contract-based deductive verification (Verus) of functions extracted from /repo on every run",
        "level": c["level"],
        "level_note": c["note"],
    }
    if c.get("theorems"):
        d["theorems"] = c["theorems"]
    checks.append(d)
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not yet under contract")} for p in ids if p not in PROPS]
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: everything is reached through the public API, or extracted from the source text.",
}, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
