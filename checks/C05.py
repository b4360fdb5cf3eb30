"""C05: the scene as a container (spec: SceneBook, SceneHist)."""
from vt.core import core_sources
from checks.common import LIBS

MAXL, MAXT = 32, 4096


def line(h):
    return " ".join("%s %d" % (o["op"], o["x"]) for o in h["h"])


def judge(h, text):
    parts = text.split("|")[1:]
    if len(parts) != len(h["h"]) + 1:
        return "history cut short: " + text[-100:]
    for i, (o, p) in enumerate(zip(h["h"], parts)):
        left, hits = p.split(":")
        v = [int(x) for x in left.split()]
        at = "step %d (%s %d): " % (i, o["op"], o["x"])
        if v[0] != o["ns"]:
            return at + "%d shapes, not %d" % (v[0], o["ns"])
        if v[1] != o["na"]:
            return at + "%d assets, not %d" % (v[1], o["na"])
        if v[2] != len(o["l"]) or v[3:] != o["l"]:
            return at + "lights %s, not %s" % (v[3:], o["l"])
        if o["op"] == "b":
            got = sorted(int(x) for x in hits.split())
            if got != sorted(o["b"]):
                return at + "hit %s, not %s" % (got, sorted(o["b"]))
    left, crowd = parts[-1].split(":")
    want = sorted(h["owned"] + h["shapes"])
    got = {int(x.split("x")[0]): int(x.split("x")[1]) for x in left.split()}
    if sorted(got) != want or any(n != 1 for n in got.values()):
        return "destroyed %s, not %s once" % (got, want)
    if crowd.strip() != "1":
        return "the crowd was not destroyed once"
    return None


def run(ctx):
    ctx.tlc("SceneBook", dict(Shapes="{1,2}", Assets="{3,4}",
                              Lights="{5,6,7}" if not ctx.thorough
                              else "{5,6,7,8}", MaxLights="2", MaxTree="4"),
            init="SInit", next_="SNext",
            invariants=("OnceEach", "Owns", "Bounds", "FirstCome"),
            properties=("NoneLost",))
    exe = ctx.build("scene", ["scene.cpp"], core_sources(),
                    defines=("DEBUG",), libs=LIBS)
    k = 1 if not ctx.thorough else 20
    base = dict(Shapes="3001..3012", Assets="1..40",
                MaxLights=str(MAXL), MaxTree=str(MAXT))
    even = '<<"s", "a", "a", "l", "l", "al", "b">>'
    bright = '<<"l", "l", "l", "l", "l", "l", "a", "al", "s", "b">>'
    hs = ctx.sim("SceneHist", dict(base, Lights="1000..1060", Len_="50..90",
                                   Near="9999", Mix=bright), 80 * k, 95)
    hs += ctx.sim("SceneHist", dict(base, Lights="1000..1060", Len_="20..120",
                                   Near="9999", Mix=even), 240 * k, 125)
    hs += ctx.sim("SceneHist", dict(base, Lights="1000..1006", Len_="5..40",
                                    Near="9999", Mix=even), 160 * k, 45)
    hs += ctx.sim("SceneHist", dict(base, Lights="1000..1003", Len_="16..40",
                                    Near="3", Mix=even), 24 * k, 45)
    cases = [line(h) for h in hs]
    for h, c, (st, out) in zip(hs, cases, ctx.replay(exe, cases, timeout=60)):
        bad = out if st != "ok" else judge(h, out)
        if bad:
            ctx.violation("scene history: " + bad, dict(case=c))
    ctx.sample(dict(case=cases[0][:300]))
    ctx.extra["full_scenes"] = sum(any(o["op"] == "c" for o in h["h"])
                                   for h in hs)
    ctx.extra["light_limit_reached"] = sum(len(h["h"][-1]["l"]) == MAXL
                                           for h in hs)
