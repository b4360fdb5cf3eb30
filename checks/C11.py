"""C11: material and texture libraries (spec: LibBook, LibHist)."""
from vt.core import core_sources
from checks.common import LIBS

NAMES = ["Default", "", "a", "A", "default", "x" * 300]
TNAMES = ["Default", "", "a", "A", "w", "$L"]
KINDS = ["m", "t", "i"]


def line(h):
    out = [str(len(NAMES))] + [n.encode().hex() or "-" for n in NAMES]
    for o in h["h"]:
        i = TNAMES.index(o["n"])
        x = o["lib"][o["k"]][o["n"]] if o["op"] == "again" else 0
        out.append("%s %s %d %d" % (o["op"], o["k"], i, x))
    return " ".join(out)


def count(text):
    return {int(x.split("x")[0]): int(x.split("x")[1]) for x in text.split()}


def judge(h, text, dflt):
    parts = text.split("|")[1:]
    if len(parts) != len(h["h"]) + 1:
        return "history cut short"
    for i, (o, p) in enumerate(zip(h["h"], parts)):
        at = "step %d (%s %s %r): " % (i, o["op"], o["k"], o["n"])
        left, right = p.split(":")
        if "default" in right:
            return at + right
        for n, v in zip(TNAMES, left.split()):
            m, t, g, c = v.split(",")
            for k, x, b in zip(KINDS, (m, t, g), c):
                w = o["lib"][k][n]
                w = -1 if w == dflt else w
                if int(x) != w or int(b) != (w != 0):
                    return at + "%s %r is %s, not %s" % (k, n, x, w)
        d = count(right)
        if sorted(d) != sorted(o["dead"]) or any(v != 1 for v in d.values()):
            return at + "destroyed %s, not %s" % (d, o["dead"])
    last = h["h"][-1]
    want = set(last["dead"]) | set(h["anon"])
    for k in KINDS:
        want |= set(last["lib"][k].values()) - {0, dflt}
    d = count(parts[-1])
    if sorted(d) != sorted(want) or any(v != 1 for v in d.values()):
        return "destroyed at the end %s, not %s" % (d, sorted(want))
    return None


def run(ctx):
    ctx.tlc("LibBook", dict(Kinds='{"m","t","i"}' if ctx.thorough else
                            '{"m","t"}', Names='{"Default","a"}',
                            MaxObj="4" if not ctx.thorough else "5"),
            init="LInit", next_="LNext",
            invariants=("OnePlace", "DefaultStays"),
            properties=("Faithful", "StaysDead"))
    exe = ctx.build("lib", ["lib.cpp"], core_sources(), defines=("DEBUG",),
                    libs=LIBS)
    k = 1 if not ctx.thorough else 20
    hs = ctx.sim("LibHist", dict(
        Kinds='{"m","t","i"}', Names="{%s}" % ",".join('"%s"' % n
                                                       for n in TNAMES),
        MaxObj="400", Len_="5..70"), 600 * k, 75,
        invariants=("Emit", "OnePlace", "DefaultStays"))
    cases = [line(h) for h in hs]
    for h, c, (st, out) in zip(hs, cases, ctx.replay(exe, cases)):
        bad = out if st != "ok" else judge(h, out, 401)
        if bad:
            ctx.violation("library history: " + bad, dict(case=c))
    ctx.sample(dict(history=[(o["op"], o["k"], o["n"])
                             for o in hs[0]["h"]][:10]))
