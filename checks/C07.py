"""C07: malformed OBJ files (specs: Obj, ObjHist, Fault)."""
import json
from checks import images as im
from checks import objs


def run(ctx):
    exes = objs.binaries(ctx)
    k = 1 if not ctx.thorough else 20
    # invalid faces among the good ones
    cases = objs.histories(ctx, 400 * k, 90, True) + \
        objs.histories(ctx, 250 * k, 25, True)
    objs.check(ctx, exes, cases)
    ctx.extra["invalid faces"] = sum(c["bad"] for c in cases)
    # any damage
    good = objs.histories(ctx, 40 * k, 60, False) + \
        objs.histories(ctx, 160 * k, 18, True)
    faults = ctx.sim("Fault", dict(MaxFaults="6"), 1600 * k, 3)
    fs = objs.Files(ctx)
    jobs = []

    def job(data, what, many=0):
        jobs.append((json.dumps(dict(file=fs.put(data), many=many)), data,
                     what))
    for i, f in enumerate(faults):
        c = good[i % len(good)]
        d = objs.text(c, ctx.rng.choice(["lf", "crlf", "mixed", "cr"]),
                      ctx.rng.random() < .5)
        job(im.harm(d, f["faults"]), "damaged by %s" % f["faults"])
    # every truncation of the shortest ones, and one byte replaced anywhere
    short = sorted((objs.text(c, "lf", True) for c in good), key=len)
    for d in short[3:5 + 2 * (k > 1)]:
        for n in range(len(d)):
            job(d[:n], "cut to %d bytes" % n)
            b = bytearray(d)
            b[n] = ctx.rng.choice(b"\0\x07\n\r /-#fvguo09\xff")
            job(bytes(b), "byte %d replaced by %d" % (n, b[n]))
    # more materials than a mesh can have
    for n in (253, 254, 255, 256, 257, 300, 511, 513):
        h = objs.histories(ctx, 1, 5, False, n)[0]
        job(objs.text(h, "lf", True), "%d materials" % n, n)
    for e in (b"", b"\n", b"f", b"o", b"g", b"v", b"usemtl", b"\0", b"\x07",
              b"f 1 2 3", b"o\no\no", b" ", b"#", b"o a\nf 1 1 1",
              b"v 0 0 0\nf 1 1 1\n", b"f\nf 1\nf 1 1\nf -1 -1 -1",
              b"v nan inf -inf\nv 1e39 0 0\nv -1e39 0 0\nf 1 2 3\nf 1 2 3\n" +
              b"f 3 2 1\n", b"v\nv\nv\nf 1 2 3\nf 1 2 3\nf 3 1 2\n",
              b"o " + b"n" * 5000 + b"\nv " + b"1" * 5000 + b"\nusemtl " +
              b"m" * 5000 + b"\nf " + b"1" * 5000):
        job(e, "%r" % e[:40])
    for exe in exes:
        for (line, data, what), (st, t) in zip(
                jobs, ctx.replay(exe, ["damaged " + j[0] for j in jobs])):
            if st != "ok" or not t.startswith("ok"):
                ctx.violation("%s: %s" % (what, t), dict(
                    case=line, text=data.hex()))
            else:
                ctx.sample(what)
    fs.close()
    ctx.extra["damaged files"] = len(jobs)
