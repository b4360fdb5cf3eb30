"""C19: paths through scripted stacks (specs: Transport, TransAlg,
TransHist)."""
import json
from vt.core import core_sources
from checks.common import LIBS

SIDE, GAP = 60.0, 10.0


def expected(p, seen):
    """The sum of the terms of the specification; seen: what each vertex was
    asked about the light (density of the direction, cosine)."""
    total = 0.0
    for t in p["terms"]:
        w = t["num"] / t["den"] * t["le"]
        if t["t"] == "l":
            if not seen.get(t["v"]):
                return None
            lp, cos = seen[t["v"]][0]
            bp = t["p"] / 16
            w *= t["f"] / 16 * cos * lp / (lp * lp + bp * bp)
        elif t["t"] == "b":
            lp = (t["gap"] * GAP) ** 2 / (SIDE * SIDE)
            bp = t["p"] / 16
            w *= t["f"] / 16 * bp / (bp * bp + lp * lp)
        total += w
    return total


def run(ctx):
    ctx.tlc("TransAlg", dict(NS="2" if not ctx.thorough else "3"),
            invariants=("Once", "NoDrop", "Bounded", "NoDark", "Sampled"))
    exe = ctx.build("trans", ["trans.cpp"], core_sources(), defines=("DEBUG",),
                    libs=list(LIBS) + ["-Wl,--wrap=_ZN7WELLrng9getNumberEv"])
    num = 3000 if not ctx.thorough else 60000
    progs = []
    for ns in (1, 2, 3, 4, 6):
        progs += ctx.sim("TransHist", dict(NS=str(ns)), num // 5, ns + 9,
                         invariants=("Emit", "Sound", "FairLottery"))
    cases = [json.dumps(p, separators=(",", ":")) for p in progs]
    count = {}
    for p, c, (st, out) in zip(progs, cases, ctx.replay(exe, cases)):
        if st != "ok":
            ctx.violation("path through %d sheets: %s"
                          % (len(p["sheets"]), out), dict(case=c))
            continue
        got = out.split()
        visits, seen = [], {}
        for e in (got[4].split(";") if len(got) > 4 else []):
            if e.startswith("@"):
                visits.append(int(e[1:]))
            elif e:
                v, lp, cos = e.split(",")
                seen.setdefault(int(v), []).append((float(lp), float(cos)))
        bad = None
        want = expected(p, seen)
        rad = [float(x) for x in got[:3]]
        if visits != p["path"] or got[3] != "tame":
            bad = "vertices %s, expected %s" % (visits, p["path"])
        elif want is None:
            bad = "a visible light was not asked for"
        elif max(abs(r - want) for r in rad) > 2e-3 * (want + 1e-3):
            bad = "radiance %s, expected %g" % (rad, want)
        for t in p["terms"]:
            count[t["t"]] = count.get(t["t"], 0) + 1
        count["length %d" % len(p["path"])] = \
            count.get("length %d" % len(p["path"]), 0) + 1
        if bad:
            ctx.violation("path through %d sheets: %s (terms %s)"
                          % (len(p["sheets"]), bad, p["terms"]),
                          dict(case=c))
    ctx.extra["terms"] = count
    ctx.sample(dict(case=cases[0][:400]))
