"""Shared by C12, C13, C14: image files (specs: Image, ImgHist, ImgBack,
ImgWrite, PngPix)."""
import json
import struct
import zlib
from concurrent.futures import ThreadPoolExecutor
from vt.core import core_sources
from checks.common import LIBS

FMTS = '{"bmp","tga","ppm"}'


def exe(ctx):
    return ctx.build("img", ["img.cpp"], core_sources(),
                     defines=("DEBUG", "TESTS"), libs=LIBS, asan=True)


def hexb(b):
    return bytes(b).hex() or "-"


def unpix(s):
    """0xBBGGRRAA -> (r, g, b, a)"""
    if s == "-":
        return []
    return [(int(s[i + 4:i + 6], 16), int(s[i + 2:i + 4], 16),
             int(s[i:i + 2], 16), int(s[i + 6:i + 8], 16))
            for i in range(0, len(s), 8)]


def pixels_differ(r, got):
    """Against the bounds of a decoded picture."""
    lo = r["lo"]
    hi = r.get("hi") or lo
    if len(got) != len(lo):
        return "%d pixels instead of %d" % (len(got), len(lo))
    for k, (g, a, b) in enumerate(zip(got, lo, hi)):
        if any(not x <= y <= z for x, y, z in zip(a, g, b)):
            want = tuple(a) if a == b else "%s to %s" % (tuple(a), tuple(b))
            return "pixel %d,%d is %s instead of %s" % (
                k % r["w"], k // r["w"], g, want)
    return None


def judge_ok(r, t):
    """t: valid dims w h read pixels"""
    if t[0] != "1":
        return "called not valid"
    if t[1] != "1":
        return "size refused"
    if (int(t[2]), int(t[3])) != (r["w"], r["h"]):
        return "size %sx%s instead of %dx%d" % (t[2], t[3], r["w"], r["h"])
    if t[4] != "1":
        return "reading refused"
    return pixels_differ(r, unpix(t[5]))


def files(ctx, num, damages, side=20, pix=120, fmts=FMTS, depth=140):
    return ctx.sim("ImgHist", dict(Fmts=fmts, MaxSide=str(side),
                                   MaxPix=str(pix), Damages=damages),
                   num, depth, invariants=("RoundTrip", "Emit"))


def describe(c):
    v = {k: x for k, x in c["v"].items() if k != "packets"}
    return "%s %s%s" % (c["fmt"], json.dumps(v),
                        " damaged by %s" % c["dmg"] if c["dmg"] else "")


# ---- PNG container (the pixels come from the specification) ----------------
def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(
        ">I", zlib.crc32(t + d) & 0xffffffff)


def pack_row(samples, depth):
    if depth == 16:
        return b"".join(struct.pack(">H", s) for s in samples)
    if depth == 8:
        return bytes(samples)
    out, acc, n = bytearray(), 0, 0
    for s in samples:
        acc = acc << depth | s
        n += depth
        if n == 8:
            out.append(acc)
            acc = n = 0
    if n:
        out.append(acc << (8 - n))
    return bytes(out)


def png_filter(kind, row, prev, bpp):
    out = bytearray()
    for i, x in enumerate(row):
        a = row[i - bpp] if i >= bpp else 0
        b = prev[i] if prev else 0
        c = prev[i - bpp] if prev and i >= bpp else 0
        if kind == 0:
            p = 0
        elif kind == 1:
            p = a
        elif kind == 2:
            p = b
        elif kind == 3:
            p = (a + b) // 2
        else:
            q = a + b - c
            d = [abs(q - a), abs(q - b), abs(q - c)]
            p = a if d[0] <= d[1] and d[0] <= d[2] else \
                b if d[1] <= d[2] else c
        out.append((x - p) & 255)
    return bytes(out)


def png(p, rng):
    return png_cut(p, rng)[0]


def png_cut(p, rng):
    """The file, and a length up to which pixels are certainly missing."""
    comps = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[p["t"]]
    w, h, d = p["w"], p["h"], p["d"]
    bpp = max(1, comps * d // 8)
    grids = [(0, 0, 1, 1)] if not p["inter"] else \
        [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4),
         (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
    raw = b""
    for x0, y0, dx, dy in grids:
        prev = None
        xs = range(x0, w, dx)
        if not len(xs):
            continue
        for y in range(y0, h, dy):
            row = pack_row([s for x in xs for s in p["sm"][y * w + x]], d)
            k = rng.randrange(5)
            raw += bytes([k]) + png_filter(k, row, prev, bpp)
            prev = row
    out = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(
        ">IIBBBBB", w, h, d, p["t"], 0, 0, p["inter"]))
    if p["t"] == 3:
        out += chunk(b"PLTE", bytes(x for q in p["pal"] for x in q[:3]))
        if p["trns"]:
            out += chunk(b"tRNS", bytes(q[3] for q in p["pal"]))
    elif p["trns"] and p["t"] in (0, 2):
        out += chunk(b"tRNS", b"".join(struct.pack(">H", s)
                                       for s in p["sm"][0]))
    z = zlib.compress(raw, rng.randrange(10))
    sure = len(out) + 8 + len(z) // 2
    cut = rng.randrange(len(z) + 1)
    for part in (z[:cut], z[cut:]):
        if part:
            out += chunk(b"IDAT", part)
    return out + chunk(b"IEND", b""), sure


# ---- TIFF container -----------------------------------------------------
def tif(w, h, px, big, rows, alpha=False, packbits=False, first=False):
    """8-bit RGB(A) strips, after the directory or before it; px: flat list
    of (r,g,b,a).  Returns the file and a length up to which pixels are
    certainly missing."""
    e = ">" if big else "<"
    n = 4 if alpha else 3
    strips = []
    for y in range(0, h, rows):
        s = b""
        for yy in range(y, min(h, y + rows)):
            line = bytes(c for x in range(w) for c in px[yy * w + x][:n])
            if packbits:
                i = 0
                while i < len(line):
                    k = line[i:i + 128]
                    s += bytes([len(k) - 1]) + k
                    i += 128
            else:
                s += line
        strips.append(s)
    data = b"".join(strips)

    def directory(base, start):
        ents, extra = [], b""
        offs, pos = [], start
        for s in strips:
            offs.append(pos)
            pos += len(s)
        head = base + 2 + 12 * (13 if alpha else 12) + 4
        for tag, typ, vals in (
                (256, 4, [w]), (257, 4, [h]), (258, 3, [8] * n),
                (259, 3, [32773 if packbits else 1]), (262, 3, [2]),
                (273, 4, offs), (274, 3, [1]), (277, 3, [n]),
                (278, 4, [rows]), (279, 4, [len(s) for s in strips]),
                (284, 3, [1]), (296, 3, [1])) + (
                    ((338, 3, [1]),) if alpha else ()):
            d = b"".join(struct.pack(e + {3: "H", 4: "I"}[typ], v)
                         for v in vals)
            if len(d) > 4:
                o = struct.pack(e + "I", head + len(extra))
                extra += d + b"\0" * (len(d) & 1)
                d = o
            ents.append(struct.pack(e + "HHI", tag, typ, len(vals)) +
                        d.ljust(4, b"\0"))
        return struct.pack(e + "H", len(ents)) + b"".join(ents) + \
            struct.pack(e + "I", 0) + extra
    mark = b"MM" if big else b"II"
    if first:
        n0 = len(directory(8, 0))
        body = mark + struct.pack(e + "HI", 42, 8) + directory(8, 8 + n0) + \
            data
        return body, len(body) - 1
    pos = 8 + len(data)
    pos += pos & 1
    body = (mark + struct.pack(e + "HI", 42, pos) + data).ljust(pos, b"\0")
    return body + directory(pos, 8), pos + 2


def harm(data, faults):
    """Applies the faults of the module Fault."""
    d = bytearray(data)
    for f in faults:
        if not d:
            break
        n = len(d)
        at = n * f["at"] // 1000
        op = f["op"]
        if op == "cut":
            d = d[:at]
        elif op == "byte":
            d[at] = f["x"][0]
        elif op == "headbyte":
            d[min(f["off"], n - 1)] = f["x"][0]
        elif op == "tailbyte":
            d[max(0, n - 1 - f["off"])] = f["x"][0]
        elif op == "out":
            d = d[:at] + d[at + f["n"]:]
        elif op == "in":
            d = d[:at] + bytes(f["x"][:1 + f["n"] % 4]) + d[at:]
        elif op == "zero":
            d[at:at + f["n"]] = bytes(len(d[at:at + f["n"]]))
    return bytes(d)


def back(ctx, recs):
    """Verdicts of ImgBack on recorded files."""
    parts = [recs[i::8] for i in range(8)]

    def go(part):
        if not part:
            return {}
        r = ctx.tlc("ImgBack", {}, invariants=("Emit",), workers=1,
                    files={"files.json": json.dumps(part)}, xmx="2g")
        return {e["i"] - 1: e["v"] for e in r.emitted}
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, parts))
    return [res[i % 8].get(i // 8) for i in range(len(recs))]
