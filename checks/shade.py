"""Shared by C18 and C20: stacks of surfaces and visibility queries."""
import json, math
from vt.core import core_sources, CheckError
from checks.common import LIBS


def build(ctx):
    return ctx.build("shadow", ["shadow.cpp"], core_sources(),
                     defines=("DEBUG",), libs=LIBS)


def world(ctx, scales=(0.25, 0.5, 1, 2, 5)):
    r = ctx.rng
    quarter = r.random() < 0.5
    a = (lambda: r.randint(0, 3) * math.pi / 2) if quarter else \
        (lambda: r.uniform(0, 6.3))
    return dict(t=[r.randint(-20, 20) for _ in range(3)], rx=a(), ry=a(),
                s=r.choice(scales))


def depth(p, z, d):
    return ((p["c"] + p["s"] * math.sqrt(p["q"])) - z / 1000) * d


def histories(ctx, exe, progs):
    cases = []
    for p in progs:
        for q in p["hist"]:
            if q["o"] == "l":
                q["d"] = depth(q["to"], q["z"], q["dir"])
            elif q["o"] == "o":
                q["d"] = q["d"] / 1000
        p["w"] = world(ctx)
        cases.append("H " + json.dumps(p, separators=(",", ":")))
    count = {}
    for p, c, (st, out) in zip(progs, cases, ctx.replay(exe, cases)):
        if st != "ok":
            ctx.violation("stack of %d surfaces: %s" % (len(p["scene"]), out),
                          dict(case=c))
            continue
        got = out.split()
        if len(got) != len(p["hist"]):
            raise CheckError("shadow harness answered %d" % len(got))
        for i, (q, g) in enumerate(zip(p["hist"], got)):
            bad = None
            key = q["o"]
            if q["o"] == "i":
                key += str(bool(q["hit"]))
                if not q["hit"]:
                    bad = None if g == "-" else "hit %s, none expected" % g
                elif g == "-":
                    bad = "missed, expected %s" % q["hit"]
                else:
                    a, t = g.split(",")
                    want = min(depth(h, q["z"], q["dir"]) for h in q["hit"])
                    if int(a) not in [h["a"] for h in q["hit"]] or \
                            abs(float(t) - want) > 2e-3 * (1 + want):
                        bad = "hit %s, expected %s" % (g, q["hit"])
            else:
                key += str(q["occ"])
                if not q.get("amb") and (g == "1") != q["occ"]:
                    bad = "occluded %s within %s" % (g, q["d"])
            count[key] = count.get(key, 0) + 1
            if bad:
                ctx.violation("query %d (%s at %s,%s from %s towards %s): %s"
                              % (i, q["o"], q["x"], q["y"], q["z"], q["dir"],
                                 bad), dict(case=c, query=q))
    ctx.extra["queries"] = count
    ctx.sample(dict(case=cases[0][:400]))
