#!/usr/bin/env python3
"""addfix.py PROP WHAT [REV]: records /repo's HEAD as a fix in known_findings.json"""
import json, subprocess, sys, os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", sys.argv[3] if len(sys.argv) > 3 else "HEAD"], text=True).strip()
d = json.load(open(f))
d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]))
json.dump(d, open(f, "w"), indent=1)
