#!/usr/bin/env python3
"""Writes DESIGN.md (see its first lines)."""
import ast, glob, json, os, re, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from levels import NOTES, NOT
def wrap(s, ind=""):
    return "\n".join(textwrap.wrap(s, 79, initial_indent=ind,
                                   subsequent_indent="  " if ind else "",
                                   break_long_words=False,
                                   break_on_hyphens=False))
costs = V + "/tools/costs.json"      # wall times noted by --costs
if "--costs" in sys.argv:
    c = json.load(open(costs)) if os.path.exists(costs) else {}
    for f in sorted(glob.glob(V + "/evidence/*.json")):
        d = json.load(open(f))
        if d["tier"] == "quick":
            c[d["property"]] = (round(d["wall_s"]), d["coverage"].get("states", 0),
                d["coverage"].get("traces_validated_against_impl", 0))
    json.dump(c, open(costs, "w"), indent=0)
C = json.load(open(costs))
out = [open(V + "/tools/design_head.md").read()]
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((f.split("/")[-2], d))
K = json.load(open(V + "/known_findings.json"))
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s  %s\n" % (i, p["title"]))
    out.append(wrap(p["statement"]) + "\n")
    if i in NOT:
        out.append(wrap("Not applicable: " + NOT[i] + ".") + "\n")
        continue
    doc = ast.get_docstring(ast.parse(open("%s/checks/%s.py" % (V, i)).read()))
    spec = " ".join(doc.split())
    out.append(wrap("**Decided by** (%s) " % spec.rstrip(".") + NOTES[i][0].replace(
        "TLA+ specification checked with TLC; ", "") + ". " + NOTES[i][1]) + "\n")
    out.append(wrap("**Beyond the tests:** " + p["why_tests_cant"]) + "\n")
    if i in C:
        out.append("**Cost:** %d s, %d states, %d cases.\n" % tuple(C[i]))
    if i in seeds:
        out.append("**Caught planted changes:** " + ", ".join(s for s, _ in seeds[i]) + "\n")
    n = sum(1 for x in K["fixed"] if "property=%s " % i in x)
    m = [x["key"] for x in K["findings"] if x["property"] == i]
    if n or m:
        out.append("**Found:** %s%s\n" % ("%d defects repaired" % n if n else "",
            ("; " if n and m else "") + ("recorded: " + ", ".join(m) if m else "")))
out.append("## 5. Defects found\n\n### Repaired (one `fix:` commit each)\n")
for x in K["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
    out.append(wrap("%s (%s): %s" % m.groups(), "- "))
out.append("\n### Recorded, because an existing test pins the wrong value\n")
for x in K["findings"]:
    out.append(wrap("%s `%s`: %s" % (x["property"], x["key"], x["what"]), "- "))
out.append("\n## 6. Planted changes and the checks that catch them\n\n"
           "Each was written from a property's text and the code, confirmed with\n"
           "`tools/seedtest.sh` (demo, test suite, check); the check of the named\n"
           "property reports it.\n\n| change | caught by | breaks | needs |\n|---|---|---|---|")
for i in sorted(seeds):
    for s, d in seeds[i]:
        out.append("| %s | %s | %s | %s |" % (s, i, d["what_it_breaks"].replace("|", "/"), str(d["needs"]).replace("|", "/")))
out.append("")
out.append(open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
