"""C18: masks and dual materials (specs: Mask, MaskHist)."""
import json
from checks import shade


def run(ctx):
    exe = shade.build(ctx)
    num = 800 if not ctx.thorough else 12000
    progs = []
    for na in (1, 5):
        progs += ctx.sim("MaskHist", dict(
            NQ="24", NA=str(na), Masked="TRUE",
            Kinds='{"sheet","sphere","box"}'), num // 2, 24 + na + 3)
    shade.histories(ctx, exe, progs)
    # dual materials: texel by texel, with the same masks
    cases, want = [], []
    for p in progs:
        for a in p["scene"]:
            if a["k"] == "sheet":
                m = a["m"]
                ts = [[i, j] for i in range(m) for j in range(m)]
                cases.append("D " + json.dumps(dict(a=a, t=ts)))
                want.append([2 if a["tex"] and (a["tex"][i][j][a["ch"] - 1]
                                                >= 128) == a["inv"] else 1
                             for i, j in ts])
    cases, want = cases[:600], want[:600]
    for c, w, (st, out) in zip(cases, want, ctx.replay(exe, cases)):
        if st != "ok" or out.split() != [str(x) for x in w]:
            ctx.violation("dual material answers %s, expected %s" % (out, w),
                          dict(case=c))
