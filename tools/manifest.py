#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the claims below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import CLAIMED, NOTES, LEVEL  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC; its behaviours replayed into the code and recorded executions validated against it",
                       "level": LEVEL, "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness in /verif/harness uses the public API only. Genuine defects found and repaired are in KNOWN_FINDINGS."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
