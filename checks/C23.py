"""C23: bounding boxes (specs: BoxHist, Lattice)."""
import json
from vt.core import core_sources
from checks.common import LIBS


def run(ctx):
    exe = ctx.build("geo", ["geo.cpp"], core_sources(), defines=("DEBUG",),
                    libs=LIBS)
    # the specification itself: the box is the hull of what was added and the
    # slab computation agrees with the definition of overlap
    ctx.tlc("BoxHist", dict(World=1, NOps=3, Sim="FALSE"), view="NoOps",
            invariants=("Hull",))
    ctx.tlc("BoxHist", dict(World=2 if not ctx.thorough else 3, NOps=1,
                            Sim="FALSE"), view="NoOps",
            invariants=("Hull", "Slab"), timeout=1500)
    if ctx.thorough:
        ctx.tlc("BoxHist", dict(World=2, NOps=2, Sim="FALSE"), view="NoOps",
                invariants=("Hull",), timeout=1500)
    num = 600 if not ctx.thorough else 12000
    progs = []
    for w in (4, 12):
        progs += ctx.sim("BoxHist", dict(World=w, NOps=80, Sim="TRUE"),
                         num, 82)
    cases = ["B " + json.dumps(p, separators=(",", ":")) for p in progs]
    rays = hits = 0
    for p, c, (st, out) in zip(progs, cases, ctx.replay(exe, cases)):
        for o in p:
            if o[0] == "r":
                rays += 1
                hits += bool(o[4][0])
        if st != "ok" or out.strip():
            ctx.violation("bounding box history: %s" % out, dict(case=c))
    ctx.extra["rays"] = rays
    ctx.extra["hits"] = hits
    ctx.sample(dict(case=cases[0][:600]))
