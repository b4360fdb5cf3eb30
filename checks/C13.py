"""C13: written images (specs: Image, ImgWrite, ImgBack)."""
from checks import images as im

EXTS = ("bmp", "tga", "ppm", "png", "jpg", "jpeg", "tif", "tiff")


def word(p):
    return "%02x%02x%02x%02x" % (p[2], p[1], p[0], p[3])


def differ(p, got):
    """Colours of a picture read back against those written."""
    if len(got) != len(p["px"]):
        return "%d pixels instead of %d" % (len(got), len(p["px"]))
    for k, (g, x) in enumerate(zip(got, p["px"])):
        if g != (x[0], x[1], x[2], 255):
            return "pixel %d,%d is %s instead of %s" % (
                k % p["w"], k // p["w"], g, tuple(x[:3]) + (255,))
    return None


def judge(p, text):
    """-> complaint, bytes for the specification to judge"""
    mine, other = text.split("|")
    t, o = mine.split(), other.split()
    if t[0] != "1":
        return "writing reported as failed", None
    if t[1] != "1":
        return "writing changed the pixels given", None
    data = bytes.fromhex(t[2]) if t[2] != "-" else b""
    if not data:
        return "nothing written", None
    look = t[3:]
    if look[0] != "1" or look[1] != "1":
        return "written file not valid", None
    if (int(look[2]), int(look[3])) != (p["w"], p["h"]):
        return "read back with size %sx%s" % (look[2], look[3]), None
    if look[4] != "1":
        return "written file can not be read", None
    lossy = p["ext"] in ("jpg", "jpeg")
    if not lossy:
        bad = differ(p, im.unpix(look[5]))
        if bad:
            return "read back: " + bad, None
    if p["ext"] in ("bmp", "tga", "ppm"):
        return None, list(data)
    if o[0] == "bad" or len(o) != 3:
        return "the library of the format finds: " + " ".join(o), None
    if (int(o[0]), int(o[1])) != (p["w"], p["h"]):
        return "the library of the format finds a size of %sx%s" % (
            o[0], o[1]), None
    if not lossy:
        bad = differ(p, im.unpix(o[2]))
        if bad:
            return "the library of the format finds: " + bad, None
    return None, None


def run(ctx):
    exe = im.exe(ctx)
    k = 1 if not ctx.thorough else 10
    pics = ctx.sim("ImgWrite", dict(
        Exts="{%s}" % ",".join('"%s"' % e for e in EXTS),
        MaxSide="24", MaxPix="200"), 640 * k, 3)
    pics += ctx.sim("ImgWrite", dict(
        Exts='{"bmp","tga","ppm","png","tif"}', MaxSide="600",
        MaxPix="900"), 80 * k, 3)
    lines = ["write %s %d %d %s %d" % (
        p["ext"], p["w"], p["h"], "".join(map(word, p["px"])), p["prev"])
        for p in pics]
    recs, of = [], []
    for p, line, (st, text) in zip(pics, lines, ctx.replay(exe, lines)):
        what = "%s %dx%d%s" % (p["ext"], p["w"], p["h"],
                               " over an existing file" if p["prev"] else "")
        data = None
        if st != "ok":
            bad = "crash: " + text
        else:
            bad, data = judge(p, text)
        if bad:
            ctx.violation(what + ": " + bad, dict(case=line))
        elif data is not None:
            recs.append(dict(fmt=p["ext"], w=p["w"], h=p["h"], px=p["px"],
                             b=data))
            of.append((what, line))
        else:
            ctx.sample(what)
    for (what, line), v in zip(of, im.back(ctx, recs)):
        if v != "ok":
            ctx.violation("%s: %s" % (what, v or "no verdict"),
                          dict(case=line))
    # sizes and contents too big for a model: the same laws, on noise
    big = [(e, w, h) for e in EXTS if not e.startswith("jp")
           for w, h in ((1, 1), (1, 4000), (4000, 1), (127, 129), (255, 3),
                        (256, 256), (257, 2), (1023, 5), (640, 481),
                        (ctx.rng.randrange(1, 900),
                         ctx.rng.randrange(1, 900)))]
    big += [(e, 65535, 1) for e in ("bmp", "tga", "ppm", "png", "tif")]
    big += [(e, 1, 65535) for e in ("bmp", "tga", "ppm", "png", "tif")]
    big += [("bmp", 70000, 1), ("ppm", 70000, 1), ("png", 70000, 1),
            ("bmp", 1, 70000), ("ppm", 1, 70000)]
    if ctx.thorough:
        big += [(e, ctx.rng.randrange(1, 2000), ctx.rng.randrange(1, 2000))
                for e in ("bmp", "tga", "ppm", "png", "tif")
                for _ in range(12)]
    lines = ["write %s %d %d *%d 0" % (e, w, h, 1 + i)
             for i, (e, w, h) in enumerate(big)]
    for (e, w, h), line, (st, text) in zip(big, lines, ctx.replay(
            exe, lines, timeout=60)):
        want = "1 1 1 %d %d 1 0" % (w, h)
        if st != "ok" or text.split() != want.split():
            ctx.violation("%s of noise, %dx%d: %s" % (e, w, h, text),
                          dict(case=line, expected=want))
    lines = ["write jpg %d %d *%d 0" % (w, h, w) for w, h in
             ((1, 1), (1, 3000), (3000, 1), (333, 7), (257, 255))]
    for line, (st, text) in zip(lines, ctx.replay(exe, lines)):
        w, h = line.split()[2:4]
        if st != "ok" or text.split()[:6] != ["1", "1", "1", w, h, "1"]:
            ctx.violation(line + ": " + text, dict(case=line))
    # what a format can not hold is refused; so is what can not be stored
    lines = ["write tga 65536 1 *1 0", "write tga 1 65536 *1 0",
             "write tga 70000 2 *1 0"]
    for line, (st, text) in zip(lines, ctx.replay(exe, lines)):
        if st != "ok" or text.split()[0] != "0":
            ctx.violation("TGA bigger than its header can say: " + text,
                          dict(case=line))
    lines = ["full %s %d %d" % (e, w, h) for e in EXTS
             for w, h in ((1, 1), (20, 30), (300, 200), (1, 5000))]
    for line, (st, text) in zip(lines, ctx.replay(exe, lines)):
        if st != "ok" or text.split() != ["0", "0"]:
            ctx.violation("%s: success of storing on a full disk and in a "
                          "missing folder: %s" % (line, text),
                          dict(case=line))
    some = [p for p in pics if p["w"] * p["h"] <= 200]
    lines = ["limit %s %d %d %s %d" % (
        p["ext"], p["w"], p["h"], "".join(map(word, p["px"])), p["stop"])
        for p in some[:400 * k]]
    lines += ["limit %s 90 80 %s %d" % (e, "".join(
        "%08x" % ctx.rng.randrange(2**32) for _ in range(7200)), at)
        for e in EXTS for at in (0, 200, 500, 900, 999)]
    for line, (st, text) in zip(lines, ctx.replay(exe, lines)):
        if st != "ok" or text.split()[:2] != ["1", "0"]:
            ctx.violation("a device full before the end of the file: %s "
                          "(success, success when full, sizes) for %s" % (
                              text, line[:60]), dict(case=line))
    lines = ["conv x %d" % n for n in (1, 2, 3, 7, 64, 255, 1000)]
    for line, (st, text) in zip(lines, ctx.replay(exe, lines)):
        if st != "ok" or text.split() != ["0"]:
            ctx.violation("conversion of pixels: " + text, dict(case=line))
    ctx.extra["pictures"] = len(pics)
    ctx.extra["pictures of noise"] = len(big)
