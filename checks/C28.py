"""C28: durations (spec: Duration)."""
import os
from vt.core import globs
from checks.common import LIBS


def run(ctx):
    if ctx.thorough:
        dom = dict(DS="0..99", HS="0..23", MS="0..59", SS="0..59")
    else:
        dom = dict(DS="{0,1,9,10,98,99}", HS="{0,1,9,10,23}",
                   MS="{0,1,9,10,58,59}", SS="0..59")
    r = ctx.tlc("Duration", dom, invariants=("Fits", "Canonical", "Emit"),
                properties=("OneSecond",), timeout=850, constraint="InDom")
    t = r.emitted[0]
    exe = ctx.build("dur", ["dur.cpp"], globs("utility/utility.cpp",
                                              "utility/console.cpp"),
                    libs=LIBS)
    path = os.path.join(ctx.tmp, "table")
    with open(path, "w") as f:
        for k in t["table"]:
            f.write("%d %s\n" % (len(k), " ".join(x.encode().hex() or "-"
                                                  for x in k)))
    n, step = t["limit"], t["limit"] // 64
    cases = ["T %s %d %d" % (path, a, min(a + step, n))
             for a in range(1, n, step)]
    cases.append("Z 0 " + t["zero"].encode().hex())
    rng = ctx.rng
    big = [n, n + 1, n * 2, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1] + \
        [rng.randrange(n, 2**32) for _ in range(2000)]
    cases += ["Z %d %s" % (b, t["more"].encode().hex()) for b in big]
    for c, (st, out) in zip(cases, ctx.replay(exe, cases, timeout=60)):
        if st != "ok" or out.strip():
            ctx.violation("duration: %s" % out, dict(case=c))
    ctx.extra["durations"] = n + len(big)
    ctx.extra["exhaustive"] = True
    ctx.sample(dict(seconds=90061, text="1d 1h 1m 1s"))
