"""C21: texture lookups (specs: Texture, TexHist)."""
import math
from vt.core import core_sources, CheckError
from checks.common import LIBS

Q = 256


def weights():
    lo = math.exp(-2)
    return [int((math.exp(-2 * i / 127.0) - lo) * 10000) for i in range(128)]


def line(side, seed, looks):
    return "%d %d %d " % (side, seed, len(looks)) + " ".join(looks)


def look(r, side):
    fl = lambda *x: " ".join("%.9g" % y for y in x)
    k = r["k"]
    if k == "e":
        return "e %s 1 1 0 0 1 %s" % (fl(r["c"] / Q, r["d"] / Q),
                                      fl(*[x / (2.0 * r["s"])
                                           for x in r["e"]]))
    head = "%s %s" % (k, fl(r["u"] / 16, r["v"] / 16, r["sx"] / 16,
                            r["sy"] / 16, r["hx"] / Q, r["hy"] / Q))
    if k == "n":
        return head + " 1 0.3 0.2 0.1 0.7"
    eff = [2.0 ** -r["e"] * r["m"] / 8] * 4
    for i in range(4):
        if i + 1 != r["w"]:
            eff[i] /= 4
        eff[i] /= abs(r["sx"] if i < 2 else r["sy"]) / 16
    return head + " %d " % (0 if r["nod"] else 1) + fl(*eff)


def judge(r, got):
    if r["k"] == "n":
        return None if got in r["r"] else "%s, expected %s" % (got, r["r"])
    if r["k"] == "e":
        if all(abs(a - b) <= 3 for a, b in zip(got, r["r"])):
            return None
        return "%s, expected about %s" % (got, r["r"])
    dec = 0 if r["fix"] else math.log2(r["m"] / 8)
    for g, a, b in zip(got, r["lo"], r["hi"]):
        e = a * (1 - dec) + b * dec
        if not e - 2.5 <= g <= e + 1.5:
            return "%s, expected about %s" % (got, e)
    return None


def run(ctx):
    exe = ctx.build("tex", ["tex.cpp"], core_sources(), defines=("DEBUG",),
                    libs=LIBS)
    w = "<<" + ",".join(map(str, weights())) + ">>"
    ctx.tlc("TexAlg", dict(Q="16", Weights=w, Sides="{1,2,4}" if not
                           ctx.thorough else "{1,2,4,8}", Range="-20..40"),
            invariants=("NearestIsNearest", "AllNearest", "Repeats",
                        "Centred", "Between", "Swap"))
    num = 240 if not ctx.thorough else 2400
    hs = []
    for log, n in ((3, num), (6, max(16, num // 6))):
        hs += ctx.sim("TexHist", dict(Q=str(Q), Weights=w, N="60",
                                      MaxLog=str(log)), n, 63)
    cases = [line(h["side"], h["seed"], [look(r, h["side"])
                                         for r in h["out"]]) for h in hs]
    kinds = {}
    for h, c, (st, out) in zip(hs, cases, ctx.replay(exe, cases)):
        if st != "ok":
            ctx.violation("texture of side %d: %s" % (h["side"], out),
                          dict(case=c))
            continue
        got = out.split()
        if len(got) != len(h["out"]):
            raise CheckError("tex harness answered %d" % len(got))
        for r, g in zip(h["out"], got):
            kinds[r["k"]] = kinds.get(r["k"], 0) + 1
            if "spectrum" in g:
                ctx.violation("spectrum and texel differ", dict(case=c))
                continue
            bad = judge(r, [int(x) for x in g.split(",")])
            if bad:
                ctx.violation("side %d, lookup %s: %s" %
                              (h["side"], look(r, h["side"]), bad),
                              dict(case=c, look=r))
    # arbitrary coordinates and footprints: inside the image, and between
    # its smallest and largest value
    cases = []
    for i in range(200 if not ctx.thorough else 4000):
        side = 2 ** ctx.rng.randint(0, 7)
        looks = []
        for _ in range(60):
            f = lambda a, b: ctx.rng.choice((-1, 1)) * 10 ** ctx.rng.uniform(
                a, b)
            v = [f(-8, 4), f(-8, 4), f(-2, 2), f(-2, 2), f(-4, 3), f(-4, 3)]
            if ctx.rng.random() < 0.2:
                v[0], v[2], v[4] = ctx.rng.randint(-9, 9), 1, 0
            d = [ctx.rng.choice([0, f(-6, 3), f(-3, 0), 1, 0.5])
                 for _ in range(4)]
            looks.append("%s %s 1 %s" % (
                ctx.rng.choice("ntee"), " ".join("%.9g" % x for x in v),
                " ".join("%.9g" % x for x in d)))
        cases.append(line(side, ctx.rng.randint(1, 999), looks))
    for c, (st, out) in zip(cases, ctx.replay(exe, cases)):
        if st != "ok":
            ctx.violation("texture lookup: " + out, dict(case=c))
            continue
        side, seed = map(int, c.split()[:2])
        pic = [[(x * (ch * 2 + 35) + y * 91 + x * y * 7 + seed * ch) % 256
                for x in range(side) for y in range(side)]
               for ch in range(1, 5)]
        rng = [(min(p) - 3, max(p)) for p in pic]
        for g in out.split():
            px = [int(x) for x in g.split(",")]
            if not all(a <= x <= b for x, (a, b) in zip(px, rng)):
                ctx.violation("texture lookup gives %s, outside the values "
                              "of the image" % g, dict(case=c))
    ctx.extra["lookups"] = kinds
    ctx.sample(dict(case=cases[0][:200]))
