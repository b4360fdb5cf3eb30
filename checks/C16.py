"""C16: samplers (specs: Walk, WalkAlg, WalkHist, Well, WellAlg,
WellHist)."""
import json
import math
import struct
from vt.core import core_sources
from checks.common import LIBS

MARK = -12345.0


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def matching(cands, n):
    """Whether every sample gets a cell of its own."""
    owner = {}

    def go(i, seen):
        for c in cands[i]:
            if c not in seen:
                seen.add(c)
                if c not in owner or go(owner[c], seen):
                    owner[c] = i
                    return True
        return False
    return all(go(i, set()) for i in range(n))


def batch(t, xs, left, spread):
    """What is wrong with a batch; removes its pixel from left."""
    n = t["spp"]
    pts = [(float(xs[2 * i]), float(xs[2 * i + 1])) for i in range(n)]
    if any(p == (MARK, MARK) or MARK in p for p in pts):
        return "only %d of %d samples given" % (
            sum(p != (MARK, MARK) for p in pts), n)
    cx = sum(p[0] for p in pts) / n
    cy = sum(p[1] for p in pts) / n
    # samples may lie on the border of their pixel
    ok = [p for p in left if all(p[0] <= x <= p[0] + 1 and
                                 p[1] <= y <= p[1] + 1 for x, y in pts)]
    if not ok:
        return "samples around %g,%g are in no pixel left of the tile" % (
            cx, cy)
    px = ok[0]
    if len(ok) > 1:
        return None if t["spp"] == 1 else "all samples on a border"
    left.discard(px)
    if t["kind"] == 1:
        for x, y in pts:
            spread["random"].append((x - px[0], y - px[1]))
        return None
    best = None
    for c, r in {(t["cols"], t["rows"]), (t["rows"], t["cols"])}:
        ex = 2e-6 * c + (px[0] + 1) * 1.3e-7 * c
        ey = 2e-6 * r + (px[1] + 1) * 1.3e-7 * r
        cands = []
        for x, y in pts:
            u, v = (x - px[0]) * c, (y - px[1]) * r
            cs = {min(max(int(math.floor(u + d)), 0), c - 1)
                  for d in (-ex, ex)}
            rs = {min(max(int(math.floor(v + d)), 0), r - 1)
                  for d in (-ey, ey)}
            cands.append([(a, b) for a in cs for b in rs])
            if t["kind"] == 3 and (abs(u % 1 - .5) > ex + 1e-5 or
                                   abs(v % 1 - .5) > ey + 1e-5):
                best = best or "sample %g,%g not at the centre of a cell" % (
                    x, y)
                break
        else:
            if matching(cands, n):
                if t["kind"] == 2:
                    for x, y in pts:
                        spread["jittered"].append(
                            ((x - px[0]) * c % 1, (y - px[1]) * r % 1))
                return None
            best = best or "not one sample in each cell"
    return best


def numbers(ctx, exe):
    k = 60 if not ctx.thorough else 1200
    progs = ctx.sim("WellHist", dict(Num="120"), k, 32 + 1 + 120 + 2)
    # a seed of zeros stays there
    cases = ["R " + json.dumps(dict(seed=p["seed"], n=len(p["out"])))
             for p in progs]
    for p, c, (st, out) in zip(progs, cases, ctx.replay(exe, cases)):
        if st != "ok":
            ctx.violation("random numbers: %s" % out, dict(case=c))
            continue
        got = out.split()
        if "differs" in got:
            ctx.violation("a sampler and the generator differ for the same "
                          "seed", dict(case=c))
            continue
        for i, (g, (hi, lo)) in enumerate(zip(got, p["out"])):
            want = f32((hi * 65536 + lo) / 2.0 ** 32)
            x = struct.unpack(">f", bytes.fromhex(g))[0]
            # conversion may round or truncate
            if abs(x - want) > 2.0 ** -23 * want + 2.0 ** -31 \
                    or not 0 <= x <= 1:
                ctx.violation("number %d of a seed is %.9g, expected %.9g" %
                              (i, x, want), dict(case=c))
                break
    ctx.extra["numbers"] = sum(len(p["out"]) for p in progs)


def walks(ctx, exe):
    k = 500 if not ctx.thorough else 8000
    progs = []
    for sq, mx, far, n in (("TRUE", 6, 4000, k // 2), ("FALSE", 6, 4000, k // 4),
                           ("TRUE", 14, 60, k // 8),
                           ("FALSE", 10, 60, k // 8)):
        progs += ctx.sim("WalkHist", dict(Square=sq, MaxSpp=str(mx),
                                          Far=str(far)), n, 240)
    r = ctx.rng
    cases = []
    for p in progs:
        q = dict(p)
        q["seed"] = [[r.randrange(65536), r.randrange(65536)]
                     for _ in range(32)]
        cases.append("W " + json.dumps(q, separators=(",", ":")))
    spread = dict(random=[], jittered=[])
    count = {}
    for p, c, (st, out) in zip(progs, cases, ctx.replay(exe, cases)):
        t = p["t"]
        what = "sampler %s of %dx%d pixels from %d,%d, %d samples" % (
            ["random", "jittered", "regular"][t["kind"] - 1],
            t["ex"] - t["sx"], t["ey"] - t["sy"], t["sx"], t["sy"], t["spp"])
        count[what.split()[1]] = count.get(what.split()[1], 0) + 1
        if st != "ok":
            ctx.violation("%s: %s" % (what, out), dict(case=c))
            continue
        left = {(x, y) for x in range(t["sx"], t["ex"])
                for y in range(t["sy"], t["ey"])}
        bad = None
        gets = [e for e in p["h"] if e["o"] == "g"]
        got = out.split()
        for i, e in enumerate(gets):
            if i >= len(got) or got[i][0] not in "01" or \
                    len(got) > len(gets):
                bad = " ".join(got[i:])[:200] or "nothing"
                break
            if (got[i][0] == "1") != e["ok"]:
                bad = "batch %d %s" % (i, "given after the last pixel"
                                       if not e["ok"] else "refused")
                break
            if e["ok"]:
                bad = batch(t, got[i].split(",")[1:], left, spread)
                if bad:
                    bad = "batch %d: %s" % (i, bad)
                    break
        if bad:
            ctx.violation("%s: %s" % (what, bad), dict(case=c))
    # samples are spread over the whole of their pixel or cell
    for k, pts in spread.items():
        grid = [[0] * 4 for _ in range(4)]
        for x, y in pts:
            grid[min(int(x * 4), 3)][min(int(y * 4), 3)] += 1
        n = len(pts)
        if n > 4000 and any(abs(g - n / 16) > 10 * math.sqrt(n / 16)
                            for row in grid for g in row):
            ctx.violation("%s samples spread as %s over their cells" %
                          (k, grid), dict(case=cases[0], grid=grid))
    ctx.extra["samplers"] = count
    ctx.extra["samples"] = {k: len(v) for k, v in spread.items()}
    ctx.sample(dict(case=cases[0][:400]))


def run(ctx):
    ctx.tlc("WalkAlg", dict(Max_="3" if not ctx.thorough else "5"),
            spec="Spec", invariants=("Refines", "Ends", "GridOk"),
            properties=("Done",))
    ctx.tlc("WellAlg", {}, invariants=("Alive", "Linear"))
    exe = ctx.build("samp", ["samp.cpp"], core_sources(), defines=("DEBUG",),
                    libs=LIBS)
    numbers(ctx, exe)
    walks(ctx, exe)
