"""C24: primitives under transformations (specs: Prim, Lattice)."""
import json, math
from vt.core import core_sources, CheckError
from checks.common import LIBS


def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v] if n else v


def near(a, b, tol=4e-3):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def inverse(m, v):
    # object-space coordinates of the world offset v
    c = [[m[i][j] for i in range(3)] for j in range(3)]
    cr = lambda a, b: [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2],
                       a[0]*b[1]-a[1]*b[0]]
    dt = lambda a, b: sum(x*y for x, y in zip(a, b))
    adj = [cr(c[1], c[2]), cr(c[2], c[0]), cr(c[0], c[1])]
    det = dt(c[0], adj[0])
    return [dt(a, v) / det for a in adj]


def judge(p, r, g):
    """None if the answer g of the code to ray r is the specified one."""
    e = r["r"]
    k = e["k"]
    if g == "!":
        return "a miss changes the distance"
    if k == "touch":
        return None
    if k == "hit":
        if "A" in e:
            root = math.sqrt(e["D"])
            t = (-e["B"] + e["r"] * root) / e["A"]
            other = (-e["B"] - e["r"] * root) / e["A"]
        else:
            t = e["t"][0] / e["t"][1]
            other = 0
        ln = math.sqrt(sum(x * x for x in r["d"])) / 4
        if 0 < t * ln < 0.04 or 0 < other * ln < 0.04:
            return None          # inside the self-intersection margin
        lim = r["lim"]
        if lim and abs(t - lim) < 1e-3 * lim:
            return None
        if lim and t > lim:
            k = "none"
    if k == "none":
        return None if g == "-" else "hit %s, none expected" % g
    if g == "-":
        return "missed, expected at %g" % t
    x = [float(v) for v in g.split(",")]
    if abs(x[0] - t) > 3e-3 * (1 + abs(t)):
        return "hit at %g, expected at %g" % (x[0], t)
    # (the pole of a sphere is nudged to have a tangent there)
    if not x[1] < (0.04 if p["kind"] == "sphere" else 1e-2):
        return "hit point %g off the ray" % x[1]
    n = x[2:5]
    if p["kind"] == "sphere":
        loc = inverse(p["m"], x[14:17])
        want = [unit([sum(inverse(p["m"], [float(i == c) for i in range(3)])[a]
                          * loc[a] for a in range(3)) for c in range(3)])]
        if 1 - abs(loc[2]) > 1e-3:
            phi = math.atan2(loc[1], loc[0]) / (2 * math.pi) % 1
            th = 1 - math.acos(max(-1, min(1, loc[2]))) / math.pi
            du = abs(x[5] - phi)
            if min(du, 1 - du) > 4e-3 or abs(x[6] - th) > 4e-3:
                return "texture coordinate %s, expected %s" % (
                    x[5:7], [phi, th])
            # along a parallel, eastwards
            w = unit([sum(p["m"][i][c] * v for c, v in
                          enumerate([-loc[1], loc[0], 0])) for i in range(3)])
            if not near(x[7:10], w, 1e-2):
                return "dpdu %s, expected %s" % (x[7:10], w)
    else:
        want = [unit(w) for w in e["n"]]
        if want == [[0, 0, 0]]:
            want = [n]
    pole = p["kind"] == "sphere" and 1 - abs(loc[2]) <= 1e-3
    if not any(near(n, w, 4e-2 if pole else 4e-3) for w in want):
        return "normal %s, expected %s" % (n, want)
    if p["kind"] == "box" and \
            abs(sum(a * b for a, b in zip(n, x[7:10]))) > 1e-3:
        return "tangent %s not on the surface" % x[7:10]
    if p["kind"] == "tri":
        uv = [e["uv"][0] / e["uv"][2], e["uv"][1] / e["uv"][2]]
        if not near(x[5:7], uv, 1e-2):
            return "texture coordinate %s, expected %s" % (x[5:7], uv)
        if not near(x[7:10], unit(e["du"])):
            return "dpdu %s, expected %s" % (x[7:10], unit(e["du"]))
        if not near(x[10:13], unit(e["dv"])):
            return "dpdv %s, expected %s" % (x[10:13], unit(e["dv"]))
    elif x[13]:
        return "leaving the surface outwards hits the shape again"
    return None


def run(ctx):
    exe = ctx.build("geo", ["geo.cpp"], core_sources(), defines=("DEBUG",),
                    libs=LIBS)
    num = 3000 if not ctx.thorough else 40000
    progs = []
    for w in (4, 12):
        progs += ctx.sim("Prim", dict(NRays=16, World=w), num // 2, 24)
    cases = ["P " + json.dumps(p, separators=(",", ":")) for p in progs]
    count = {}
    for p, c, (st, out) in zip(progs, cases, ctx.replay(exe, cases)):
        if st != "ok":
            ctx.violation("%s: %s" % (p["kind"], out), dict(case=c))
            continue
        got = out.split()
        if len(got) != len(p["rays"]):
            raise CheckError("geo harness answered %d rays" % len(got))
        for r, g in zip(p["rays"], got):
            key = p["kind"] + " " + r["r"]["k"]
            count[key] = count.get(key, 0) + 1
            why = judge(p, r, g)
            if why:
                ctx.violation("%s m=%s t=%s ray %s %s within %s: %s" %
                              (p["kind"], p["m"], p["tr"], r["o"], r["d"],
                               r["lim"], why), dict(case=c, ray=r))
    ctx.extra["rays"] = count
    ctx.sample(dict(case=cases[0][:500]))
