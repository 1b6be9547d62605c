#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

ids = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"python3 run.py {i} quick",
            "thorough_cmd": f"python3 run.py {i} thorough",
            "technique": CHECKS[i]["technique"],
            "level": CHECKS[i]["level"],
            "level_note": CHECKS[i]["note"],
        }
        for i in ids if i in CHECKS
    ],
    "not_applicable": [
        {"property": i, "reason": "No check built yet."} for i in ids if i not in CHECKS
    ],
    "notes": "No hooks in /repo: every monitor observes the public API. See DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
