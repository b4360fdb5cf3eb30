"""C17: materials choose among their lobes (specs: Lobes, LobesAlg,
LobeHist)."""
import json
from vt.core import core_sources, CheckError
from checks.common import LIBS


def near(a, b):
    return abs(a - b) <= 2e-4 * (1 + abs(b))


def frame(r):
    while True:
        v = [r.uniform(-1, 1) for _ in range(6)]
        c = [v[1] * v[5] - v[2] * v[4], v[2] * v[3] - v[0] * v[5],
             v[0] * v[4] - v[1] * v[3]]
        if sum(x * x for x in c) > 0.2:
            return " ".join("%.4f" % x for x in v)


def histories(ctx, exe):
    num = 1500 if not ctx.thorough else 20000
    progs = []
    for nl, single, share in ((5, "FALSE", num // 2), (3, "FALSE", num // 3),
                              (1, "TRUE", num // 6)):
        progs += [(p, single == "TRUE") for p in ctx.sim(
            "LobeHist", dict(NQ="24", NL=str(nl), Single=single), share,
            24 + nl + 2)]
    cases = ["H %d %s %s" % (s, frame(ctx.rng),
                             json.dumps(p, separators=(",", ":")))
             for p, s in progs]
    count = {}
    for (p, single), c, (st, out) in zip(progs, cases, ctx.replay(exe, cases)):
        if st != "ok":
            ctx.violation("history of a material: %s" % out, dict(case=c))
            continue
        got = out.split()
        if len(got) != len(p) + 1:
            raise CheckError("mat harness answered %d" % len(got))
        lobes = []
        for i, (q, g) in enumerate(zip(p, got)):
            bad = None
            w = q.get("want")
            if q["o"] == "add":
                lobes.append(q["l"])
                continue
            key = q["o"] + ("1" if single else str(len(lobes)))
            count[key] = count.get(key, 0) + 1
            if q["o"] == "v":
                if not near(float(g), w / 64):
                    bad = "value %s, expected %g" % (g, w / 64)
            elif q["o"] == "p":
                e = w["num"] / 16 / w["den"]
                if not near(float(g), e):
                    bad = "density %s, expected %g" % (g, e)
            else:
                v, pdf, spec, d = map(float, g.split(","))
                e = w["num"] / 16 / w["den"]
                if w["num"] == 0:           # nothing to sample
                    if pdf != 0 or v != 0:
                        bad = "sampled %s, expected nothing" % g
                elif not near(pdf, e) or not near(v, w["v"] / 64) or \
                        bool(spec) != w["spec"] or not d:
                    bad = "sampled value, density, specular, direction %s, " \
                        "expected %g %g %s" % (g, w["v"] / 64, e, w["spec"])
            if bad:
                ctx.violation("%s of lobes %s: %s" % (q["o"], lobes, bad),
                              dict(case=c, query=q))
        if got[-1] != "d%d" % len(lobes):
            ctx.violation("%s lobes destroyed of %d" % (got[-1], len(lobes)),
                          dict(case=c))
    ctx.extra["queries"] = count
    ctx.sample(dict(case=cases[0][:400]))


def reals(ctx, exe):
    """Lobes of the repository, in compositions generated from LobeHist."""
    r = ctx.rng
    kinds = {("R", False): ["lambert", "oren", "ggx", "ggxa", "beck", "blinn"],
             ("T", False): ["ggxt"], ("R", True): ["mirror"],
             ("T", True): ["glass"]}
    cases = []
    for k, p in enumerate(
            ctx.sim("LobeHist", dict(NQ="2", NL="4", Single="FALSE"),
                    400 if not ctx.thorough else 4000, 8)):
        if k % 3 == 0:
            p = p[:1]
        l = [r.choice(kinds[q["l"]["side"], q["l"]["spec"]])
             for q in p if q["o"] == "add"]
        if l:
            qs = [[r.uniform(-1, 1), r.uniform(-1, 1),
                   r.choice((1, -1)) * r.uniform(.2, 1)] +
                  [r.uniform(.01, .99) for _ in "abc"] + [r.random() < .5]
                  for _ in range(20)]
            cases.append("R %s %s" % (frame(r), json.dumps(
                dict(lobes=l, q=qs, single=len(l) == 1 and l[0] not in (
                    "ggxt", "glass")))))
    n = 0
    for c, (st, out) in zip(cases, ctx.replay(exe, cases)):
        if st != "ok":
            ctx.violation("material of real lobes: %s" % out, dict(case=c))
            continue
        for i, g in enumerate(out.split()):
            if g == "0":
                continue
            v, w, p, p2, sp, ln = map(float, g.split(","))
            n += 1
            if abs(v - w) > .02 * abs(v) + 1e-4 or \
                    abs(p - p2) > .02 * p + 1e-4 or abs(ln - 1) > 1e-3:
                ctx.violation("sampled value %g and density %g, asked again "
                              "%g and %g, direction of length %g"
                              % (v, p, w, p2, ln), dict(case=c, query=i))
    ctx.extra["samples of real lobes"] = n


def run(ctx):
    ctx.tlc("LobesAlg", dict(MaxLen="2" if not ctx.thorough else "3"),
            invariants=("Fair", "Total", "Agrees", "Black"))
    exe = ctx.build("mat", ["mat.cpp"], core_sources(), defines=("DEBUG",),
                    libs=LIBS)
    histories(ctx, exe)
    reals(ctx, exe)
