"""C14: damaged image files (specs: Image, ImgHist, Fault) and the choice of
the format by the extension."""
from checks import images as im

DAMAGES = '{"cut","byte","field","field","out","in"}'

# bytes without which there is no header
HEAD = {"bmp": 54, "tga": 18}


def empty(t):
    """A size that no picture has."""
    if t[1] == "1" and (int(t[2]) <= 0 or int(t[3]) <= 0):
        return "announced with size %sx%s" % (t[2], t[3])
    return None


def verdict(c, t):
    """Against the specification's decoder. t: valid dims w h read pixels"""
    r = c["r"]
    if r["st"] == "ok":
        return im.judge_ok(r, t)
    if len(c["b"]) < HEAD.get(c["fmt"], 0) and t[1] == "1":
        return "announced, %sx%s, without its header" % (t[2], t[3])
    if r["st"] == "refuse" and t[1] == "1" and t[4] == "1":
        return "read, %sx%s, without the data or header for it" % (
            t[2], t[3])
    return empty(t)


def containers(ctx, k):
    """(ext, good file, length up to which pixels are missing, name)"""
    out = []
    for p in ctx.sim("PngPix", dict(MaxSide="16"), 60 * k, 4):
        d, sure = im.png_cut(p, ctx.rng)
        out.append(("png", d, sure, "png type %d, %d bits, %dx%d" % (
            p["t"], p["d"], p["w"], p["h"])))
    for p in ctx.sim("ImgWrite", dict(Exts='{"tif"}', MaxSide="24",
                                      MaxPix="200"), 60 * k, 3):
        kw = dict(big=ctx.rng.random() < .5,
                  rows=ctx.rng.randrange(1, p["h"] + 1),
                  alpha=ctx.rng.random() < .3,
                  packbits=ctx.rng.random() < .4,
                  first=ctx.rng.random() < .5)
        d, sure = im.tif(p["w"], p["h"], [tuple(x) for x in p["px"]], **kw)
        out.append((ctx.rng.choice(["tif", "tiff"]), d, sure,
                    "tiff %dx%d %s" % (p["w"], p["h"], kw)))
    return out


def jpegs(ctx, exe, k):
    out = []
    asks = [(ctx.rng.randrange(1, 60), ctx.rng.randrange(1, 60),
             ctx.rng.choice([1, 3]), ctx.rng.randrange(2),
             ctx.rng.randrange(10**6)) for _ in range(40 * k)]
    for a, (st, text) in zip(asks, ctx.replay(
            exe, ["make jpg %d %d %d %d %d" % a for a in asks])):
        if st != "ok":
            raise RuntimeError("making a JPEG: " + text)
        d = bytes.fromhex(text)
        out.append((ctx.rng.choice(["jpg", "jpeg"]), d, len(d) // 2,
                    "jpeg %dx%d, %d components%s" % (
                        a[0], a[1], a[2], ", progressive" if a[3] else "")))
    return out


def run(ctx):
    exe = im.exe(ctx)
    k = 1 if not ctx.thorough else 10
    stats = {"ok": 0, "refuse": 0, "other": 0}
    # formats of the specification
    cases = im.files(ctx, 2600 * k, DAMAGES)
    # every length of the header
    whole = im.files(ctx, 40 * k, "{}", fmts='{"bmp","tga"}')
    for c in [next(c for c in whole if c["fmt"] == f) for f in HEAD]:
        for n in range(HEAD[c["fmt"]]):
            cases.append(dict(c, b=c["b"][:n], dmg=[["cut", n]],
                              r={"st": "refuse"}))
    for c, (st, text) in zip(cases, ctx.replay(
            exe, ["read %s %s" % (c["fmt"], im.hexb(c["b"]))
                  for c in cases])):
        stats[c["r"]["st"]] += 1
        bad = "crash: " + text if st != "ok" else verdict(c, text.split())
        if bad:
            ctx.violation("%s: %s" % (im.describe(c), bad),
                          dict(ext=c["fmt"], bytes=im.hexb(c["b"])))
        else:
            ctx.sample(im.describe(c))
    # formats read through libraries: whole files, then schedules of faults
    good = containers(ctx, k) + jpegs(ctx, exe, k)
    for (ext, d, sure, name), (st, text) in zip(good, ctx.replay(
            exe, ["read %s %s" % (ext, d.hex()) for ext, d, _, _ in good])):
        if st != "ok" or text.split()[0:2] != ["1", "1"] or \
                text.split()[4] != "1":
            ctx.violation("%s, undamaged: %s" % (name, text[:60]),
                          dict(ext=ext, bytes=d.hex()))
    jp = [g for g in good if g[0].startswith("jp")]
    for (ext, d, _, name), (st, text) in zip(jp, ctx.replay(
            exe, ["jpg ok " + g[1].hex() for g in jp])):
        mine, other = (text.split("|") + [""])[:2]
        mine, other = mine.split(), other.split()
        if st != "ok" or mine[2:4] + mine[5:6] != other[0:3]:
            ctx.violation("%s: not the picture its library decodes: %s" % (
                name, text[:100] if st != "ok" else ""),
                dict(ext=ext, bytes=d.hex()))
    faults = ctx.sim("Fault", dict(MaxFaults="4"), 900 * k, 3)
    todo = []
    for i, f in enumerate(faults):
        ext, d, sure, name = good[i % len(good)]
        todo.append((ext, im.harm(d, f["faults"]), f["trunc"], sure, name,
                     f["faults"]))
    # every length of the first few of every format
    for ext in ("png", "tif", "jpg", "jpeg", "tiff"):
        of = [g for g in good if g[0] == ext and len(g[1]) < 1500][
            :1 if not ctx.thorough else 8]
        for ext, d, sure, name in of:
            for n in range(len(d)):
                todo.append((ext, d[:n], True, sure, name, "cut to %d" % n))
    for (ext, d, trunc, sure, name, f), (st, text) in zip(todo, ctx.replay(
            exe, ["read %s %s" % (t[0], im.hexb(t[1])) for t in todo])):
        bad = None
        if st != "ok":
            bad = "crash: " + text
        else:
            t = text.split()
            if trunc and len(d) <= sure and t[1] == "1" and t[4] == "1":
                bad = "read although cut to %d bytes" % len(d)
            else:
                bad = empty(t)
        if bad:
            ctx.violation("%s damaged by %s: %s" % (name, f, bad),
                          dict(ext=ext, bytes=im.hexb(d)))
    stats["through libraries"] = len(todo)
    extensions(ctx, exe)
    textures(ctx, exe, cases, good)
    ctx.extra["files"] = stats


KNOWN = ("bmp", "tga", "ppm", "png", "jpg", "jpeg", "tif", "tiff")
OTHERS = ("gif", "bm", "bmpp", "pp", "ppmx", "pgm", "p", "jpe", "jpegg",
          "tiffs", "ti", "pn", "pngpng", "webp", "txt", "tg", "tgaa", "b.mp")


def extensions(ctx, exe):
    lines = ["ext %s %s" % (e, e) for e in KNOWN + OTHERS] + ["ext x -"]
    for line, (st, text) in zip(lines, ctx.replay(exe, lines)):
        e = line.split()[2]
        want = "1 000 1 1" if e in KNOWN else "0 000 0 0"
        if st != "ok" or text.split() != want.split():
            ctx.violation("extension %s: %s instead of %s" % (e, text, want),
                          dict(case=line))


def textures(ctx, exe, cases, good):
    """An image is used as a texture when it can be read (and is a square
    with a power of two as side), and replaced by the default otherwise."""
    todo = []
    whole = im.files(ctx, 260 if not ctx.thorough else 2000, "{}", side=8,
                     pix=64)
    for c in whole:
        c = dict(c)
        todo.append((c["fmt"], c["b"], c["r"]))
    for c in cases[:150]:
        if c["r"]["st"] == "refuse":
            todo.append((c["fmt"], c["b"], c["r"]))
    lines = ["tex %s %d %s %d" % (
        f, i % 3, im.hexb(b), r.get("w", 4) if r["st"] == "ok" and
        r["w"] == r["h"] else 4) for i, (f, b, r) in enumerate(todo)]
    for (f, b, r), line, (st, text) in zip(todo, lines,
                                           ctx.replay(exe, lines)):
        if st != "ok":
            bad = "crash: " + text
        else:
            t = text.split()
            used = r["st"] == "ok" and r["w"] == r["h"] and \
                r["w"] & (r["w"] - 1) == 0
            a, d = im.unpix(t[1]), im.unpix(t[2])
            bad = None
            if t[3] != "1":
                bad = "another picture the second time"
            elif not used and (a != d or t[0] != "0"):
                bad = "not replaced by the default"
            elif used:
                lo = [[max(0, x - 1) for x in p] for p in r["lo"]]
                hi = [[x + 1 for x in p] for p in r["hi"] or r["lo"]]
                bad = im.pixels_differ(dict(r, lo=lo, hi=hi), a)
                if not bad and t[0] != "1":
                    bad = "not kept in the library"
        if bad:
            ctx.violation("texture from %s %s: %s" % (
                f, "%dx%d" % (r["w"], r["h"]) if r["st"] == "ok"
                else "(broken)", bad), dict(case=line))
