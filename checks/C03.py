"""C03: kd-tree (specs: KdSplit, Lattice, KdHist)."""
import json
from vt.core import core_sources, CheckError

LIBS = ("-lpthread", "-ldl", "-ljpeg", "-lpng", "-ltiff")


def split(ctx):
    n = dict(N=2, M=2) if not ctx.thorough else dict(N=2, M=4)
    ctx.tlc("KdSplit", dict(n, TieRule='"left-first"'),
            invariants=("Kept", "Covered"))
    bad = ctx.tlc("KdSplit", dict(N=2, M=2, TieRule='"any"'),
                  invariants=("Kept",), expect_violation=True, count=False)
    if bad.violated is None:
        raise CheckError("KdSplit.tla cannot tell a dropped asset")


def agrees(got, op, eps=2e-3):
    """op = [R, o, d, hit, [n, den], who, touches]; got = '-' or 'who,t,off'"""
    _, _, _, hit, t, who, touch = op
    touch = [tuple(x) for x in touch]
    if got == "-":
        return not hit, "no hit"
    w, tt, off = got.split(",")
    w, tt, off = int(w), float(tt), float(off)
    if not (off < 1e-2):
        return False, "hit point off the ray"
    if hit and w in who and abs(tt - t[0] / t[1]) < eps * (1 + t[0] / t[1]):
        return True, ""
    # an edge or grazing contact may be reported too
    if any(x[0] == w for x in touch):
        return True, ""
    return False, "hit asset %d at %g" % (w, tt)


def run(ctx):
    split(ctx)
    exe = ctx.build("kd", ["kd.cpp"], core_sources(),
                    defines=("DEBUG", "TESTS"), libs=LIBS)
    num = 640 if not ctx.thorough else 8000
    progs = []
    shapes = [("1..8", 10), ("4..40", 6), ("30..120", 12)]
    for n, world in shapes:
        progs += ctx.sim("KdHist", dict(
            NAssets=n, NOps=60, World=world,
            Styles='{"flat", "grid", "stack", "tris", "mix", "small", "wide"}'),
            num // (1 if n == "4..40" else 2), 64)
    cases = ["H " + json.dumps(p, separators=(",", ":")) for p in progs]
    res = ctx.replay(exe, cases, timeout=20)
    nray = nhit = 0
    for p, c, (st, out) in zip(progs, cases, res):
        rays = [(i, o) for i, o in enumerate(p["ops"]) if o[0] == "R"]
        if st != "ok":
            ctx.violation("kd-tree history crashed: %s" % out, dict(case=c))
            continue
        got = out.split()
        if len(got) != len(rays):
            raise CheckError("kd harness answered %d of %d rays" %
                             (len(got), len(rays)))
        for g, (i, o) in zip(got, rays):
            nray += 1
            nhit += bool(o[3])
            ok, why = agrees(g, o)
            if not ok:
                ctx.violation("ray %s %s after %s: %s, expected %s" %
                              (o[1], o[2], [x for x in p["ops"][:i] if x[0] != "R"],
                               why, o[3:7]), dict(case=c, op=i))
    ctx.extra["rays"] = nray
    ctx.extra["hits"] = nhit
    ctx.sample(dict(case=cases[0][:600], result=res[0][1][:200]))
    # capacity
    caps = [("L %d" % n, (min(n, 4096), 0, 0, max(0, n - 4096)))
            for n in (1, 5, 1000, 4096, 4097, 4200)]
    for (c, want), (st, out) in zip(caps, ctx.replay(exe, [c for c, _ in caps],
                                                     timeout=120)):
        if st != "ok" or tuple(map(int, out.split())) != want:
            ctx.violation("assets in a row: %s gives %s, expected %s (found, "
                          "wrong, beyond the limit found, refused)" %
                          (c, out, want), dict(case=c))
    many = ["S %d" % n for n in ((60, 300, 900) if not ctx.thorough
                                 else (60, 300, 900, 2400))]
    for c, (st, out) in zip(many, ctx.replay(exe, many, timeout=200)):
        if st != "ok" or out.split()[0] != "0":
            ctx.violation("crossing needles: %s gives %s" % (c, out),
                          dict(case=c))
