#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks present and
tools/levels.py (technique and level notes, reasons not to claim)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from levels import NOTES, NOT
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists("%s/checks/%s.py" % (V, i)):
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i,
                           thorough_cmd="python3 run.py %s" % i,
                           technique=tech, level="model_checking",
                           level_note=note))
    else:
        na.append(dict(property=i, reason=NOT.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks,
               not_applicable=na, notes="Language: TLA+ (TLC). See DESIGN.md."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
