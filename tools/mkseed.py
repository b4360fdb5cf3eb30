#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS =
[(file, old, new)...] and DEMO (C++ text) (or DEMO_SH).  Writes seeded/ID."""
import os, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = tempfile.mkdtemp(prefix="mk")
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
    for f, old, new in g["EDITS"]:
        p = os.path.join(d, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (g["ID"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    o = os.path.join(V, "seeded", g["ID"])
    os.makedirs(o, exist_ok=True)
    diff = subprocess.check_output(["git", "diff"], cwd=d + "/r").decode()
    open(o + "/patch.diff", "w").write(diff)
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]),
              open(o + "/meta.json", "w"), indent=1)
    if "DEMO_SH" in g:
        open(o + "/demo.sh", "w").write(g["DEMO_SH"])
    else:
        shutil.copy(V + "/tools/demo_template.sh", o + "/demo.sh")
    if "DEMO" in g:
        open(o + "/demo.cpp", "w").write(g["DEMO"])
    os.chmod(o + "/demo.sh", 0o755)
    shutil.rmtree(d)
    print("wrote", g["ID"])
