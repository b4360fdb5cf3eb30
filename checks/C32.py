"""C32: draws follow the density of the model (specs: Draws, DrawHist)."""
import json
from vt.core import core_sources
from checks.common import LIBS


def run(ctx):
    exe = ctx.build("draws", ["draws.cpp"], core_sources(),
                    defines=("DEBUG",), libs=LIBS)
    shapes = [(1, 4), (2, 2), (4, 1), (8, 2)]
    if ctx.thorough:
        shapes += [(16, 1), (16, 4), (4, 8), (8, 8)]
    for k, s in shapes:
        ctx.tlc("Draws", dict(N=16 if ctx.thorough else 8, K=k, S=s),
                invariants=("Even", "Never", "Bounded", "Inverse"))
    num = 60 if not ctx.thorough else 1000
    hist = ctx.sim("DrawHist", {}, num, 21, invariants=("Legal", "Emit"))
    cases = ["D " + json.dumps(h, separators=(",", ":")) for h in hist]
    kinds = {}
    for c, (st, out) in zip(cases, ctx.replay(exe, [x[2:] for x in cases])):
        k = json.loads(c[2:])["kind"]
        kinds[k] = kinds.get(k, 0) + 1
        known = [w[1:] for w in out.split() if w[0] == "#"] \
            if st == "ok" else []
        for w in known:
            ctx.violation("lobe %s: %s" % (k, w), dict(case=c), key=w)
            out = out.replace("#" + w, "")
        if st != "ok" or out.strip():
            ctx.violation("lobe %s: %s" % (k, out), dict(case=c))
    ctx.extra["lobes"] = kinds
    ctx.sample(dict(case=cases[0]))
