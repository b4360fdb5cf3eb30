"""C20: visibility queries and samples of lights (specs: Shadow, Mask,
MaskHist, LightSee)."""
import json, math
from vt.core import CheckError
from checks import shade


def area(l, n):
    x, y, z = n
    if l["k"] == "sphere":
        return 4 * math.pi * (l["w"] * x) ** 2
    w = l["w"] * l["m"]
    a, b, c = w * x, w * y, l["h"] * z
    return a * b if l["k"] == "sheet" else 2 * (a * b + b * c + a * c)


def normal(l, q, tol):
    """Outward normals of the light at q (none: not on the surface)."""
    x, y, z = q[0] - l["x"], q[1] - l["y"], q[2] - l["z"]
    if l["k"] == "sphere":
        n = math.sqrt(x * x + y * y + z * z)
        return [(x / n, y / n, z / n)] if abs(n - l["w"]) < tol else []
    w = l["w"] * l["m"]
    dims = (w, w, 0 if l["k"] == "sheet" else l["h"])
    if any(c < -tol or c > d + tol for c, d in zip((x, y, z), dims)):
        return []
    if l["k"] == "sheet":
        return [(0, 0, 1)]
    out = []
    for i, (c, d) in enumerate(zip((x, y, z), dims)):
        for edge, sign in ((0, -1), (d, 1)):
            if abs(c - edge) < tol:
                out.append(tuple(sign if k == i else 0 for k in range(3)))
    return out


def texel(l, q):
    i = int((q[0] - l["x"]) / l["w"])
    j = int((q[1] - l["y"]) / l["w"])
    m = l["m"]
    fu, fv = (q[0] - l["x"]) / l["w"] % 1, (q[1] - l["y"]) / l["w"] % 1
    if min(fu, fv, 1 - fu, 1 - fv) < 0.02 or not (0 <= i < m and 0 <= j < m):
        return True                         # too close to a border
    if l["f"] % 2:
        i = m - 1 - i
    if l["f"] // 2:
        j = m - 1 - j
    return (l["tex"][i][j][l["ch"] - 1] >= 128) != l["inv"]


def lights(ctx, exe, num, nr):
    progs = ctx.sim("LightSee", dict(NP="6"), num, 9,
                    invariants=("Emit", "Sound"))
    cases = []
    r = ctx.rng
    for p in progs:
        w = p["w"] = shade.world(ctx)
        w["n"] = [w["s"]] * 3
        if p["light"]["k"] != "sphere" and r.random() < 0.5:
            w["n"] = [r.choice((0.5, 1, 2, 3)) for _ in range(3)]
        for h in p["hist"]:
            h["r"] = [[round(r.uniform(.001, .999), 5) for _ in "12"]
                      for _ in range(nr)]
        p["out"] = [[round(r.uniform(.001, .999), 5) for _ in "1234"]
                    for _ in range(nr)]
        cases.append("L " + json.dumps(p, separators=(",", ":")))
    seen = dict(lit=0, occluded=0, black=0, none=0, out=0)
    for p, c, (st, out) in zip(progs, cases, ctx.replay(exe, cases)):
        if st != "ok":
            ctx.violation("light of kind %s: %s" % (p["light"]["k"], out),
                          dict(case=c))
            continue
        l, s = p["light"], p["w"]["n"]
        parts = out.split("|")
        if len(parts) != len(p["hist"]) + 1:
            raise CheckError("light harness answered %d" % len(parts))
        A = area(l, s)
        for h, part in zip(p["hist"], parts):
            if h["amb"]:
                continue
            bad = None
            pos = [v / 4 for v in h["p"]]
            got = part.split()
            none = got.count("0")
            for g in got:
                if g == "0":
                    continue
                if g == "b":
                    seen["black"] += 1
                    if h["lit"] and l["k"] == "sphere":
                        none += 1           # grazing its outline
                    elif h["lit"]:
                        bad = "no radiance where the light faces"
                    continue
                occ, x, y, z, n, pdf, other, same = map(float, g.split(","))
                q = (x, y, z)
                if not h["lit"]:
                    bad = "radiance from the inner side"
                    break
                if not same:
                    bad = "another radiance than the light's"
                if bool(occ) != h["occ"]:
                    bad = "occluded %d" % occ
                seen["occluded" if occ else "lit"] += 1
                d = [a - b for a, b in zip(q, pos)]
                ns = normal(l, q, 3e-3 * (1 + math.hypot(*d)))
                d = [a * b for a, b in zip(d, s)]
                far = math.hypot(*d)
                if not ns:
                    bad = "sample %s off the light" % (q,)
                    break
                if abs(n - 1) > 1e-3:
                    bad = "direction of length %g" % n
                if l["tex"] and not texel(l, q):
                    bad = "sample %s where the light is cut out" % (q,)
                ok = False
                for nn in ns:
                    cos = abs(sum(a * b for a, b in zip(d, nn))) / far
                    want = far ** 2 / max(cos, 1e-9) / A
                    if cos < 0.05 or (abs(pdf / want - 1) < 0.03 and
                                      abs(other / want - 1) < 0.03):
                        ok = True
                if not ok:
                    bad = "pdf %g and %g, expected %g" % (pdf, other, want)
            seen["none"] += none
            if not got:
                raise CheckError("no samples")
            # share of samples on masked parts
            if h["see"] in (0, 16):
                wrong = none > 0.03 * len(got) + 2 if h["see"] else \
                    none < len(got)
            else:
                f = 1 - h["see"] / 16
                wrong = abs(none - f * len(got)) > 2 + 6 * math.sqrt(
                    f * (1 - f) * len(got))
            if not bad and wrong:
                bad = "%d of %d samples without answer" % (none, len(got))
            if bad:
                ctx.violation("light %s seen from %s: %s (expected %s)"
                              % (l["k"], pos, bad, dict(lit=h["lit"],
                                                        occ=h["occ"])),
                              dict(case=c, query=h))
        for g in parts[-1].split():
            v = [float(x) for x in g.split(",")]
            seen["out"] += 1
            ns = normal(l, v[:3], 3e-3 * (10 + l["w"]))
            want = 1 / (2 * math.pi * A)
            if not ns or not v[8] or max(
                    sum(a * b for a, b in zip(v[3:6], n)) for n in ns) < -1e-2 \
                    or abs(v[6] / want - 1) > .02 or abs(v[7] / want - 1) > .02:
                ctx.violation("ray leaving a %s: %s, pdf %g expected"
                              % (l["k"], g, want), dict(case=c))
    ctx.extra["light samples"] = seen


def run(ctx):
    ctx.tlc("Shadow", dict(Rays="{1,2}", Assets="{1,2}",
                           Dists="1..2" if not ctx.thorough else "1..3",
                           Slots="{0,1}"), invariants=("CacheInvisible",))
    exe = shade.build(ctx)
    num = 2000 if not ctx.thorough else 20000
    progs = []
    for na in (2, 6):
        progs += ctx.sim("MaskHist", dict(
            NQ="40", NA=str(na), Masked="FALSE",
            Kinds='{"sheet","sphere","box"}'), num // 2, 40 + na + 3)
    shade.histories(ctx, exe, progs)
    lights(ctx, exe, 500 if not ctx.thorough else 6000,
           60 if not ctx.thorough else 200)
