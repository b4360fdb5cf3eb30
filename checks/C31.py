"""C31: symmetry and consistency of the scattering lobes (specs: Scatter,
ScatAlg, ScatHist, Snell)."""
import json
from vt.core import core_sources
from checks.common import LIBS


def run(ctx):
    exe = ctx.build("scat", ["scat.cpp"], core_sources(), defines=("DEBUG",),
                    libs=LIBS)
    # the specification: steps keep the angles, refraction can be walked back
    ctx.tlc("ScatAlg", dict(Steps=2, Wide="TRUE"),
            invariants=("Lengths", "Kept", "Axes", "Medium", "Back"))
    ctx.tlc("ScatAlg", dict(Steps=3 if not ctx.thorough else 4, Wide="FALSE"),
            invariants=("Lengths", "Kept", "Axes", "Medium", "Back"),
            timeout=1500)
    num = 3000 if not ctx.thorough else 40000
    hist = ctx.sim("ScatHist", dict(Steps="6"), num, 9,
                   invariants=("Same", "Fair", "Reversible", "Round", "Emit"))
    rays = ctx.sim("Snell", {}, num // 40, 41, invariants=("Law", "Emit"))
    cases = ["S " + json.dumps(h, separators=(",", ":")) for h in hist] + \
            ["M " + json.dumps(r, separators=(",", ":")) for r in rays]
    kinds = {}
    for c, (st, out) in zip(cases, ctx.replay(exe, cases)):
        k = json.loads(c[2:])
        k = k["lobe"]["kind"] if c[0] == "S" else "perfect " + k["k"]
        kinds[k] = kinds.get(k, 0) + 1
        known = [w[1:] for w in out.split() if w[0] == "#"] \
            if st == "ok" else []
        for w in known:
            ctx.violation("lobe %s: %s" % (k, w), dict(case=c), key=w)
            out = out.replace("#" + w, "")
        if st != "ok" or out.strip():
            ctx.violation("lobe %s: %s" % (k, out), dict(case=c))
    ctx.extra["lobes"] = kinds
    ctx.sample(dict(case=cases[0][:600]))
