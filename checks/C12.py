"""C12: decoding of BMP, TGA and PPM files (specs: Image, ImgHist),
and of the kinds of PNG (PngPix)."""
from checks import images as im


def run(ctx):
    exe = im.exe(ctx)
    k = 1 if not ctx.thorough else 12
    cases = im.files(ctx, 1400 * k, "{}")
    # longer rows than any packet or buffer, and long columns
    cases += im.files(ctx, 120 * k, "{}", side=700, pix=1500, depth=400)
    cases = [c for c in cases if c["r"]["st"] == "ok"]
    res = ctx.replay(exe, ["read %s %s" % (c["fmt"], im.hexb(c["b"]))
                           for c in cases])
    kinds = {}
    for c, (st, text) in zip(cases, res):
        kinds[c["fmt"]] = kinds.get(c["fmt"], 0) + 1
        bad = "crash: " + text if st != "ok" else \
            im.judge_ok(c["r"], text.split())
        if bad:
            ctx.violation("%s: %s" % (im.describe(c), bad),
                          dict(ext=c["fmt"], bytes=im.hexb(c["b"])))
        else:
            ctx.sample(im.describe(c))
    pics = ctx.sim("PngPix", dict(MaxSide="12"), 240 * k, 4)
    data = [im.png(p, ctx.rng) for p in pics]
    for p, d, (st, text) in zip(pics, data, ctx.replay(
            exe, ["read png " + d.hex() for d in data])):
        what = "png type %d, %d bits, %dx%d%s%s" % (
            p["t"], p["d"], p["w"], p["h"],
            ", interlaced" if p["inter"] else "",
            ", transparent" if p["trns"] else "")
        bad = "crash: " + text if st != "ok" else \
            im.judge_ok(p, text.split())
        if bad:
            ctx.violation(what + ": " + bad, dict(ext="png", bytes=d.hex()))
    kinds["png"] = len(pics)
    ctx.extra["files"] = kinds
