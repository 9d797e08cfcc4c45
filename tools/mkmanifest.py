#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOTES  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        mod, level = CHECKS[i]
        tech, note = NOTES[mod] if i not in NOTES else NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"python3 verify.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 verify.py {i}",
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason="its specification is not written yet; no check is registered"))
m = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na,
         notes="Specifications in TLA+ under spec/, checked with TLC; DESIGN.md says what each check does.  No hooks in /repo.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
