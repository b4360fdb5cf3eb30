"""C04: mesh intersection (specs: Lattice, MeshHist)."""
import json
from vt.core import core_sources, CheckError
from checks.common import LIBS


def run(ctx):
    exe = ctx.build("geo", ["geo.cpp"], core_sources(), defines=("DEBUG",),
                    libs=LIBS)
    num = 400 if not ctx.thorough else 6000
    styles = ('{"sheet", "stack", "line", "same", "cluster", "big", "fan", '
              '"soup"}')
    progs = []
    for n, w in (("1..5", 4), ("6..24", 8), ("25..64", 12), ("100..160", 24)):
        progs += ctx.sim("MeshHist", dict(NTris=n, NRays=24, World=w,
                                          Styles=styles), num // 2, 27)
    cases = ["M " + json.dumps(p, separators=(",", ":")) for p in progs]
    res = ctx.replay(exe, cases, timeout=20)
    nray = nhit = 0
    for p, c, (st, out) in zip(progs, cases, res):
        if st != "ok":
            ctx.violation("mesh of %d triangles (%s) crashed: %s" %
                          (len(p["tris"]), p["style"], out), dict(case=c))
            continue
        got = out.split()
        n = len(p["rays"])
        if len(got) != 2 * n:
            raise CheckError("geo harness answered %d of %d rays" %
                             (len(got), 2 * n))
        for i, r in enumerate(p["rays"]):
            o, d, lim, hit, t, who, touch = r
            nray += 1
            nhit += bool(hit)
            g = got[i]
            why = None
            if g != got[n + i]:
                why = "answers %s first, %s later" % (g, got[n + i])
            elif g == "!":
                why = "a missed mesh changes the distance or hit point"
            elif g == "-":
                if hit:
                    why = "no hit"
            else:
                w, tt, off = g.split(",")
                w, tt, off = int(w), float(tt), float(off)
                val = t[0] / t[1]
                if hit and abs(tt - val) < 2e-3 * (1 + val):
                    pass
                elif any(abs(tt - x[1] / x[2]) < 2e-3 * (1 + tt)
                         or x[1] == 0 for x in touch):
                    pass
                else:
                    why = "hit triangle %d at %g" % (w, tt)
                if not off < 1e-2:
                    why = "hit point off the ray"
            if why:
                ctx.violation("%d triangles (%s), ray %s %s within %s: %s, "
                              "expected hit=%s t=%s triangles=%s" %
                              (len(p["tris"]), p["style"], o, d, lim, why, hit,
                               t, who), dict(case=c, ray=i))
    ctx.extra["rays"] = nray
    ctx.extra["hits"] = nhit
    ctx.sample(dict(case=cases[0][:500], result=res[0][1][:200]))
    big = ["D %d %d %d" % (n, m, ctx.seed * 77 + n)
           for m in range(5) for n in ((60, 200, 700) if not ctx.thorough else
                                       (60, 200, 700, 3000))]
    for c, (st, out) in zip(big, ctx.replay(exe, big, timeout=300)):
        if st != "ok" or out.split()[0] != "0":
            ctx.violation("shrinking triangles %s: %s" % (c, out), dict(case=c))
    sheets = ["G %d" % n for n in (1, 2, 40, 260)]
    for c, (st, out) in zip(sheets, ctx.replay(exe, sheets, timeout=300)):
        n = int(c[2:])
        if st != "ok" or out != "0 %d" % (2 * n * n):
            ctx.violation("sheet of triangles %s: %s" % (c, out), dict(case=c))
