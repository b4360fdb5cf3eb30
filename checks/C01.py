"""C01: every pixel sampled spp times under every schedule (Render*)."""
import json
from vt.core import core_sources, CheckError


def gen(ctx, n):
    """configurations and schedules, from the specification"""
    out = []
    # several shapes: many small tiles for races, taller images, one thread
    for k, c in enumerate((
            dict(Widths="{32, 64, 128, 256}", Heights="{1, 2, 3}", Spps="{1}",
                 Threads="{2, 3, 4, 8}", SchedLen=400),
            dict(Widths="{32, 64, 96}", Heights="{31, 32, 33, 64, 65}",
                 Spps="{1, 4}", Threads="{1, 2, 3}", SchedLen=200),
            dict(Widths="{32, 64}", Heights="{1, 2}",
                 Spps="{k*k : k \\in 2..14}",
                 Threads="{1, 2, 5}", SchedLen=300))):
        out += ctx.tlc("RenderGen", c, invariants=("Emit",),
                       simulate=n // (3 - k) if k < 2 else n // 3,
                       depth=3).emitted
    return out


def run(ctx, image=False):
    ctx.tlc("Render", dict(Split=2), spec="MCSpec",
            invariants=("EachPixelOnce", "NeverMore", "OneOwner"),
            properties=("Termination",))
    exe = ctx.build("render", ["render.cpp"], core_sources(),
                    defines=("DEBUG", "TESTS"),
                    libs=("-lpthread", "-ldl", "-ljpeg", "-lpng", "-ltiff"))
    cfgs = gen(ctx, 3000 if ctx.thorough else 150)
    cases = ["%d %s" % (ctx.seed * 77777 + i, json.dumps(c))
             for i, c in enumerate(cfgs)]
    res = ctx.replay(exe, cases, timeout=60)
    traces, idx = [], []
    for i, (st, o) in enumerate(res):
        if st != "ok":
            ctx.violation("render failed: " + o, dict(case=cases[i]))
            continue
        t = json.loads(o)
        if image:
            if t["image"]:
                ctx.violation("rendered image: " + t["image"],
                              dict(case=cases[i]))
        else:
            traces.append(t)
            idx.append(i)
    ctx.sample(dict(case=cases[0][:300], trace=res[0][1][:300]))
    if image or not traces:
        return
    split = traces[0]["split"]
    acc = ctx.tlc_traces("RenderTrace", dict(Split=split), traces)
    for k, (ok, upto) in enumerate(acc):
        if not ok:
            t = traces[k]
            ev = t["log"][upto] if upto < len(t["log"]) else None
            ctx.violation("execution leaves the specification at event %d: %s "
                          "(image %dx%d, %d spp, %d threads)" %
                          (upto, ev, t["w"], t["h"], t["spp"], t["n"]),
                          dict(case=cases[idx[k]], trace=t))
