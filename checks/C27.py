"""C27: the place and content of the saved image (spec OutHist)."""
import json
from vt.core import CheckError, core_sources
from checks.common import LIBS


def expected(c):
    """The tree afterwards: entries with D, F (untouched) or N (written)."""
    t = {"/".join([""] + p): "D" for p in c["dirs"] if p}
    t.update({"/".join([""] + p): "F" for p in c["files"]})
    if c["ok"]:
        t["/".join([""] + c["target"])] = "N"
    return t


def judge(c, text):
    rc, tree, img = [x.strip() for x in text.split("|")]
    rc = int(rc)
    got = {}
    for x in tree.split():
        s = bytes.fromhex(x).decode()
        got[s[1:]] = s[0]
    if rc not in (10, 11, 12):
        return "crash (%d)" % rc
    if not c["ok"] and rc != 10:
        return "an output that can not be stored is not reported"
    if c["ok"] and rc == 10:
        return "reported as impossible"
    want = expected(c)
    if got != want:
        d = sorted(set(got.items()) ^ set(want.items()))
        return "after saving, %s" % "; ".join(
            "%s %s" % (k, "expected" if want.get(k) == v else "found as " + v)
            for k, v in d)
    if not c["ok"]:
        return None
    if rc != 11:
        return "saving reported as failed"
    v = img.split()
    p = c["pic"]
    if v[:2] != [str(p["w"]), str(p["h"])]:
        return "image is " + " ".join(v[:2])
    if c["ext"] in ("jpg", "jpeg"):
        return None
    px = list(map(int, v[2:]))
    want = [x for q in p["see"] for x in q]
    if px != want:
        k = next(i for i in range(len(want)) if i >= len(px) or
                 px[i] != want[i])
        return "channel %d of pixel %d is %s instead of %d" % (
            k % 3, k // 3, px[k] if k < len(px) else "missing", want[k])
    return None


def run(ctx):
    exe = ctx.build("out", ["out.cpp"], core_sources(),
                    defines=("DEBUG", "TESTS"), libs=LIBS, asan=True)
    cases = ctx.sim("OutHist", dict(MaxEntries="9", MaxSide="5"),
                    2600 if not ctx.thorough else 30000, 14,
                    invariants=("Emit", "Sound"))
    lines = [json.dumps(c) for c in cases]
    n = {True: 0, False: 0}
    skipped = 0
    for c, line, (st, text) in zip(cases, lines, ctx.replay(exe, lines)):
        if st == "ok" and text.startswith("77 "):
            skipped += 1  # the user could not be changed
            continue
        n[c["ok"]] += 1
        bad = "crash: " + text if st != "ok" else judge(c, text)
        name = "%s%s%s" % ("/w/d/" if c["req"]["ab"] else "",
                           "/".join(c["req"]["names"]), c["req"]["tr"])
        what = "output %s with folders %s, files %s, locked %s" % (
            name, *[["/".join(p) for p in c[k] if len(p) > 2]
                    for k in ("dirs", "files", "locked")])
        if bad:
            ctx.violation(what + ": " + bad, dict(case=line))
        else:
            ctx.sample(what)
    if skipped * 2 > len(cases):
        raise CheckError("%d cases could not change the user" % skipped)
    ctx.extra["storable"] = n[True]
    ctx.extra["to be reported"] = n[False]
