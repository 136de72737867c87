#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props

NOTE = ("Every recorded call of the real library (several word sizes, compiled from /repo's working tree) is judged by TLC "
        "against the TLA+ specification: a value, panic or error the specification does not allow is rejected. Bounded by "
        "the calls generated (seeded, boundary-biased; see evidence). Trusts TLC, the arbitrary-size integer overrides "
        "(cross-checked against the pure TLA+ definitions by MCBigZ), and from_le_bytes/to_le_bytes at the boundary.")
EXTRA = {}

ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i not in props.PROPS:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py check " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": props.PROPS[i].get("technique", "TLA+ specification: TLC trace validation of the real code"),
        "level": "model_checking",
        "level_note": NOTE + props.PROPS[i].get("note", ""),
    })
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. KNOWN_FINDINGS.txt lists repaired and known defects."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
