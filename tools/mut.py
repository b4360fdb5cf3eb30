#!/usr/bin/env python3
"""mut.py MUTS.py [PROP...]: MUTS defines M = [(prop, file, old, new)...]; runs
each property's check against a scratch copy of /repo with that edit and says
whether it noticed."""
import os, sys, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
for i, (prop, f, old, new) in enumerate(g["M"]):
    if len(sys.argv) > 2 and prop not in sys.argv[2:] and str(i) not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    shutil.copytree(os.environ.get("VT_REPO", "/repo") + "/src", d + "/src")
    p = os.path.join(d, "src", f)
    s = open(p).read()
    if s.count(old) != 1:
        print(i, prop, "BAD EDIT", s.count(old), old[:60]); shutil.rmtree(d); continue
    open(p, "w").write(s.replace(old, new))
    r = subprocess.run(["python3", V + "/run.py", prop], capture_output=True, text=True,
                       env=dict(os.environ, VT_REPO=d, VT_EVID=d, VERIF_TIER="quick"))
    out = r.stdout + r.stderr
    why = [l for l in out.splitlines() if "violating case" in l][:1]
    print(i, prop, "rc=%d" % r.returncode, {1: "CAUGHT", 0: "missed"}.get(r.returncode, "ERROR"),
          repr(new[:60]), (why[0][:160] if why else ""), "" if r.returncode < 2 else out[-500:], flush=True)
    shutil.rmtree(d)
