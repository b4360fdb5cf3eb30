"""Shared by C06, C07: Wavefront OBJ files (specs: Obj, ObjHist, ObjRead)."""
import json
import os
import shutil
from vt.core import core_sources
from checks.common import LIBS

KNOWN = '{"Red","Green","Blue"}'
MTLS = '{"Red","Green","Blue","Red","red","Missing","Default","Re"}'
NOTES = ["", " a note", "f 1 2 3", "\tv 1 2 3", " " + "n" * 300, " o other",
         " \x07 \x07", "#", " g x", "usemtl Red", " caff\u00e8 \u00ff",
         " " + "long " * 900]
OTHER = ["mtllib a.mtl", "vp 0.25 0.5 1", "l 1 2 3", "p 1", "cstype bezier",
         "end", "off 3", "vpp 1", "usemtlx Red", "object x", "fo 1 2 3",
         "curv2 1 2"]
SMOOTH = ["1", "off", "0", "2"]
SEPS = [" ", " ", " ", "  ", "\t", " \t ", "\t\t", " "]
TAILS = ["", " ", "  \t", "\t"]
EOLS = {"lf": ["\n"], "crlf": ["\r\n"], "cr": ["\r"],
        "mixed": ["\n", "\r\n", "\n", "\n", "\r\n", "\n", "\n", "\n",
                  "\r\n", "\n"]}


def binaries(ctx):
    """Small and normal read buffer."""
    return [ctx.build("obj_small", ["obj.cpp"], core_sources(),
                      defines=("DEBUG", "TESTS"), libs=LIBS, asan=True),
            ctx.build("obj_large", ["obj.cpp"], core_sources(),
                      defines=("DEBUG",), libs=LIBS, asan=True)]


def number(x, style):
    """x eighths"""
    v = x / 8.0
    plain = ("%.3f" % v).rstrip("0").rstrip(".")
    if plain in ("", "-", "-0"):
        plain = "0"
    if style == 0:
        return plain if plain.startswith("-") else "+" + plain
    if style == 1:
        return "%.6f" % v
    if style == 2:
        return "%.4e" % v
    if style == 3:
        return "%.4fE-1" % (v * 10)
    if style == 4 and "." in plain:
        return plain.replace("0.", ".") if plain.lstrip("-").startswith(
            "0.") else plain
    if style == 5 and "." not in plain:
        return plain + "."
    if style == 6 and x == 0:
        return "-0.0"
    if style == 7:
        return "00" + plain if x >= 0 else "-0" + plain[1:]
    return plain


def name(n):
    return "L" * 200 + n[1:] if n.startswith("L") else n


def ref(l, p, c):
    raw = l["raw"]
    if raw[0] == p + 1 and raw[1] == c + 1 and raw[2]:
        return {"zero": "0", "wrap": str(2**32 + abs(raw[3])),
                "huge": "-99999999999999999999",
                "text": ["x", "1x", "", "1.5", "--1", "0x1", "+-2"][
                    abs(raw[3]) % 7] or "?"}[raw[2]]
    return str(l["vs"][p][c])


def tokens(l, y):
    k = l["k"]
    if k in ("v", "vt", "vn"):
        return [k] + [number(x, y["num"]) for x in l["p"]]
    if k in ("usemtl",):
        return [k, l["name"]]
    if k in ("o", "g"):
        return [k, name(l["name"])]
    if k == "f":
        out = [k]
        for p in range(len(l["vs"])):
            v, t, n = (ref(l, p, c) for c in range(3))
            out.append({1: v, 2: v + "/" + t, 3: v + "//" + n,
                        4: v + "/" + t + "/" + n}[l["form"]])
        return out
    if k == "s":
        return ["s", SMOOTH[l["w"] % 4]]
    if k == "note":
        return ["#" + NOTES[l["w"]]]
    if k == "other":
        return OTHER[l["w"]].split(" ")
    return []


def text(case, eol, final):
    """eol: one of EOLS; final: with a newline after the last line."""
    parts = []
    for i, e in enumerate(case["lines"]):
        l, y = e["l"], e["y"]
        ts = tokens(l, y)
        lead = "" if l["k"] == "note" else ["", " ", "\t "][y["lead"]]
        end = EOLS[eol][y["eol"] % len(EOLS[eol])]
        if i == len(case["lines"]) - 1 and not final:
            end = ""
        parts.append(lead + SEPS[y["sep"]].join(ts) + TAILS[y["tail"]] + end)
    return "".join(parts).encode("utf-8", "replace")


def shifted(data, at, size=4096):
    """A note before the file, so that the buffer ends at byte `at` of it."""
    n = (size - at) % size
    if n < 2:
        n += size
    return b"#" + b"x" * (n - 2) + b"\n" + data


def meaning(case):
    """Positions, coordinates and normals in place of their indices."""
    return [dict(name=name(m["name"]), faces=[
        dict(mat=f["mat"], vs=[[case["v"][a - 1],
                                case["t"][b - 1] if b > 0 else None,
                                case["n"][c - 1] if c > 0 else None]
                               for a, b, c in f["vs"]])
        for f in m["faces"]]) for m in case["meshes"]]


class Files:
    """OBJ files in a scratch folder."""

    def __init__(self, ctx):
        self.d = os.path.join(ctx.tmp, "obj")
        os.makedirs(self.d, exist_ok=True)
        self.n = 0

    def put(self, data):
        self.n += 1
        p = os.path.join(self.d, "f%d.obj" % self.n)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def histories(ctx, num, lines, bad, many=0):
    return ctx.sim("ObjHist", dict(
        Lines=str(lines), Bad="TRUE" if bad else "FALSE", MaxTris="60",
        Mtls=MTLS, Many=str(many), Known=KNOWN if not many else
        "{%s}" % ",".join('"M%d"' % i for i in range(1, many + 1))),
        num, lines + 5, invariants=("Meant", "Existing", "Emit"))


def check(ctx, exes, cases, many=0):
    """Replays files; every case in one layout per binary."""
    rng = ctx.rng
    for small, exe in ((True, exes[0]), (False, exes[1])):
        fs = Files(ctx)
        jobs, info = [], []
        before = None
        for c in cases:
            eol = rng.choice(["lf", "lf", "crlf", "mixed", "cr"])
            final = rng.random() < .5
            data = text(c, eol, final)
            cut = None
            if not small and rng.random() < .8:
                cut = rng.randrange(len(data) + 1)
                data = shifted(data, cut)
            path = fs.put(data)
            job = dict(file=path, meshes=meaning(c), many=many,
                       end=rng.random() < .5)
            if before and rng.random() < .3:
                job["before"] = before
                job["closed"] = rng.random() < .7
            before = path
            jobs.append("parse " + json.dumps(job))
            info.append("%d lines ending with %s, %s newline at the end, "
                        "buffer %s" % (
                            len(c["lines"]), eol,
                            "a" if final else "no",
                            "3" if small else "4096 ending at byte %s" % cut))
        for c, job, what, (st, t) in zip(cases, jobs, info,
                                         ctx.replay(exe, jobs)):
            bad = None
            if st != "ok":
                bad = "crash: " + t
            elif not t.startswith("ok"):
                bad = t
            elif small:
                n = int(t.split()[1])
                if n < c["bad"]:
                    bad = "%d invalid faces, %d reports" % (c["bad"], n)
            if bad:
                j = json.loads(job[6:])
                ctx.violation("%s: %s" % (what, bad), dict(
                    case=job, text=open(j["file"], "rb").read().hex()))
            else:
                ctx.sample(what)
        fs.close()
