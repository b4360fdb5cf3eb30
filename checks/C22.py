"""C22: transformations (spec: Xform)."""
import json
from vt.core import core_sources
from checks.common import LIBS


def run(ctx):
    exe = ctx.build("geo", ["geo.cpp"], core_sources(), defines=("DEBUG",),
                    libs=LIBS)
    # the specification itself: products move points as their factors do, the
    # adjugate inverts, normals stay perpendicular
    ctx.tlc("Xform", dict(NOps=4 if not ctx.thorough else 5, Sim="FALSE"),
            invariants=("Compose", "Invert", "Covector"), timeout=1500)
    num = 1600 if not ctx.thorough else 25000
    progs = ctx.sim("Xform", dict(NOps=8, Sim="TRUE"), num // 2, 10)
    progs += ctx.sim("Xform", dict(NOps=20, Sim="TRUE"), num // 2, 22)
    cases = ["X " + json.dumps(p, separators=(",", ":")) for p in progs]
    for c, (st, out) in zip(cases, ctx.replay(exe, cases)):
        if st != "ok" or out.strip():
            ctx.violation("transformation history: %s" % out, dict(case=c))
    ctx.extra["steps"] = sum(len(p) for p in progs)
    ctx.sample(dict(case=cases[0][:600]))
