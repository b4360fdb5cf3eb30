"""C26: meshes as containers, surface sampling (spec: MeshBook)."""
import json
from vt.core import core_sources
from checks.common import LIBS


def run(ctx):
    plain = ctx.build("geo", ["geo.cpp"], core_sources(), defines=("DEBUG",),
                      libs=LIBS)
    # with TESTS the maximum is small enough to be reached often
    small = ctx.build("geot", ["geo.cpp"], core_sources(),
                      defines=("DEBUG", "TESTS"), libs=LIBS)
    k = 1 if not ctx.thorough else 15
    inv = ("Emit", "AreaOk", "Kept", "Distinct")
    progs = []
    for n, num in (("1..4", 160), ("5..20", 160), ("60..70", 80)):
        progs += ctx.sim("MeshBook", dict(Max_=65, NTris=n, Cells=256),
                         num * k, 75, invariants=inv)
    big = ctx.sim("MeshBook", dict(Max_=1000000, NTris="90..220", Cells=256),
                  24 * k, 230, invariants=("Emit", "Kept"))
    for exe, ps in ((small, progs), (plain, progs[:160] + big)):
        ps = [p for p in ps if exe == small or p["refused"] == 0]
        cases = ["K " + json.dumps(p, separators=(",", ":")) for p in ps]
        for p, c, (st, out) in zip(ps, cases, ctx.replay(exe, cases)):
            if st != "ok" or out.strip():
                ctx.violation("mesh of %d triangles (%d refused): %s" %
                              (p["n"], p["refused"], out), dict(case=c))
    ctx.sample(dict(case=("K " + json.dumps(progs[0]))[:600]))
    cases = ["W %d %d %d" % (a, b, c) for a in (1, 2, 3) for b in (1, 2, 3)
             for c in (1, 2, 3)]
    for c, (st, out) in zip(cases, ctx.replay(plain, cases, timeout=60)):
        if st != "ok" or out.strip():
            ctx.violation("sampling solids %s: %s" % (c, out), dict(case=c))
    for n in (999999, 1000000, 1000007):
        (st, out), = ctx.replay(plain, ["N %d" % n], timeout=120)
        if st != "ok" or out.strip() != str(min(n, 1000000)):
            ctx.violation("%d insertions: %s" % (n, out), dict(case="N %d" % n))
    ctx.extra["refused"] = sum(p["refused"] for p in progs)
