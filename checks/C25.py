"""C25: rays of cameras (specs: Camera, CamAlg, CamHist)."""
import json
import math
from vt.core import core_sources
from checks.common import LIBS


def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def size(v):
    return math.sqrt(sum(x * x for x in v))


def ray(c, w, az=None):
    """Origin and direction of a ray of the specification."""
    o = [p + x / w["od"] for p, x in zip(c["pos"], w["o"])]
    if "d" in w:
        return o, unit(w["d"])
    a = 2 * math.pi * w["az"][0] / w["az"][1]
    if az:
        a = az(a)
    z = 2 * math.pi * w["ze"][0] / w["ze"][1]
    k = [math.sin(z) * math.sin(a), math.cos(z), math.sin(z) * math.cos(a)]
    return o, [sum(k[j] * c[b][i] / c["n"] for j, b in enumerate("ruf"))
               for i in range(3)]


def wrong(c, want, got):
    """What differs between the expected rays (of the sample, of the next to
    the right, of the next below) and those given (and the one alone)."""
    tol = 2e-4
    # angles are rounded before their sine is taken
    step = 3e-6 if c["kind"] == "pano" else 6e-7
    # rounding follows the largest numbers at hand
    far = 1 + size(c["pos"]) + 2 * max(c["w"], c["h"]) / min(c["w"], c["h"])
    for (o, d), g, name in zip(want + want[:1], got,
                               ("ray", "right", "below", "alone")):
        if abs(size(g[3:]) - 1) > 1e-4:
            return "%s: direction of length %g" % (name, size(g[3:]))
        if size(sub(g[:3], o)) > 1e-6 * far:
            return "%s: origin %s, expected %s" % (name, g[:3], o)
        if size(sub(g[3:], d)) > tol:
            return "%s: direction %s, expected %s" % (name, g[3:], d)
    for k, name in ((1, "right"), (2, "below")):
        for a, b, what in ((0, 3, "origin"), (3, 6, "direction")):
            e = sub(want[k][a // 3], want[0][a // 3])
            s = sub(got[k][a:b], got[0][a:b])
            if size(sub(e, s)) > .02 * size(e) + (
                    6e-7 * far if a == 0 else step):
                return "%s: %s moves by %s, expected %s" % (name, what, s, e)
    return None


def run(ctx):
    ctx.tlc("CamAlg", dict(Max_="4" if not ctx.thorough else "7"),
            invariants=("FrameOk", "Middle", "Ahead", "Sides"))
    exe = ctx.build("cam", ["cam.cpp"], core_sources(), defines=("DEBUG",),
                    libs=LIBS)
    k = 600 if not ctx.thorough else 12000
    progs = []
    for kind in ("persp", "ortho", "pano"):
        progs += ctx.sim("CamHist", dict(Kind='"%s"' % kind, MaxRes="2000"),
                         k, 12)
    cases = [json.dumps(p, separators=(",", ":")) for p in progs]
    known = None
    for p, case, (st, out) in zip(progs, cases, ctx.replay(exe, cases)):
        c = p["c"]
        what = "%s camera of %dx%d" % (c["kind"], c["w"], c["h"])
        if st != "ok":
            ctx.violation("%s: %s" % (what, out), dict(case=case))
            continue
        got = out.split()
        if len(got) != 4 * len(p["h"]):
            ctx.violation("%s: %s" % (what, got[-1]), dict(case=case))
            continue
        got = [[float(x) for x in g.split(",")] for g in got]
        for i, h in enumerate(p["h"]):
            g = got[4 * i:4 * i + 4]
            bad = wrong(c, [ray(c, w) for w in h["want"]], g)
            if not bad:
                continue
            key = None
            # the known panorama turns the other way and puts its target at
            # the first quarter of the image
            if c["kind"] == "pano" and not wrong(
                    c, [ray(c, w, lambda a: -a - math.pi / 2)
                        for w in h["want"]], g):
                key = "panorama: mirrored, target at a quarter of the width"
            ctx.violation("%s, sample %g,%g: %s" % (
                what, h["x"] / 8, h["y"] / 8, bad), dict(case=case), key=key)
            if not key:
                break
    ctx.extra["cameras"] = len(progs)
    ctx.sample(dict(case=cases[0][:400]))
