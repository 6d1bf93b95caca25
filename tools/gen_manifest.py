#!/usr/bin/env python3
"""Writes MANIFEST.json from targets.py ( and checks that properties.jsonl is in step )."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from targets import CHECKS
from notes import technique, note, NOT_APPLICABLE, NOTES
ids = [json.loads(l)["id"] for l in open(here + "/../properties.jsonl")]
checks = []
for i in ids:
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run_check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": technique(i), "level": "exploration", "level_note": note(i)})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "No check has been built yet.")} for i in ids if i not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 run_check.py --build", "checks": checks, "not_applicable": na, "notes": NOTES}
with open(here + "/../MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
