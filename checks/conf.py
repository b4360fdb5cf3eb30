"""Scene files: writes what the specification describes, in many layouts."""
import hashlib
import json
import os
import shutil
import struct

from checks.common import LIBS
from vt.core import core_sources

WRAP = ["-Wl,--wrap=" + s for s in (
    "_ZN8RendererC1EiiiPKci", "_ZN8Renderer14inherit_cameraEP6Camera",
    "_ZN8Renderer14inherit_filterEP6Filter", "_ZN8Renderer11set_samplerEi",
    "_ZN8Renderer18inherit_integratorEP15LightIntegrator")]
NAMES = ["Red", "Green", "Blue", "Shiny", "m 5", "Mix", "Mix2", "Rusty", ""]


def exe(ctx):
    return ctx.build("conf", ["conf.cpp"], core_sources(), defines=("DEBUG",),
                     libs=LIBS + tuple(WRAP))


def scenes(ctx, num, lines, objects, kids, trouble, w):
    return ctx.sim("ConfHist", dict(
        Lines=str(lines), MaxObj=str(objects), MaxKids=str(kids),
        Trouble=str(trouble),
        W="<<%s>>" % ", ".join('"%s"' % x for x in w)),
        num, lines + 6, invariants=("Promise", "Emit"))


# ---- meshes ----------------------------------------------------------------
def mesh(kind, var):
    """vertices (x y z u v), faces"""
    a, b = .25 * var, .125 * (var % 3)
    if kind == "tri":
        return [(0, -.5, b, 0, 0), (1 + a, 0, 0, 1, b), (-b, 1.5, a, .5, 1)], \
            [(0, 1, 2)]
    if kind == "quad":
        return [(-1, -1, b, 0, 0), (1 + a, -1, b, 2, 0), (1 + a, 1, b, 2, 1),
                (-1, 1, b, 0, 1 + a)], [(0, 1, 2), (0, 2, 3)]
    return [(-1, 0, -1, 0, 0), (1 + b, 0, -1, 1, 0), (0, 0, 1 + a, .5, 1),
            (0, 1.5 + b, 0, .25, .5)], \
        [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]


def tris(m):
    v, f = mesh(m["kind"], m["var"])
    return [[x for i in t for x in v[i]] for t in f]


def obj_text(meshes, rng):
    o = ["# meshes"] if rng.random() < .3 else []
    base, cur = 1, ""
    word = rng.choice(["o ", "o ", "g "])
    for m in meshes:
        v, f = mesh(m["kind"], m["var"])
        o.append(word + m["name"])
        for x in v:
            o.append("v %s %s %s" % x[:3])
        for x in v:
            o.append("vt %s %s" % x[3:])
        whole = m["kind"] == "quad" and m["mats"][0] == m["mats"][1]
        if whole and rng.random() < .6:
            f, mats = [(0, 1, 2, 3)], m["mats"][:1]
        else:
            mats = m["mats"]
        for t, n in zip(f, mats):
            if n != cur or (n and rng.random() < .2):
                o.append("usemtl " + n)
                cur = n
            o.append("f " + " ".join("%d/%d" % (base + i, base + i)
                                     for i in t))
        base += len(v)
    return "\n".join(o) + "\n"


def bmp(path):
    """a square image that depends on its path"""
    h = hashlib.sha256("/".join(path).encode()).digest()
    side = (4, 8, 16)[h[0] % 3]
    px = b""
    seed = int.from_bytes(h[1:5], "big")
    for i in range(side * side):
        seed = (seed * 1103515245 + 12345) & 0x7fffffff
        px += bytes(((seed >> 8) & 255, (seed >> 13) & 255, (seed >> 18) & 255,
                     255 if seed & 0x10000 else (seed >> 20) & 127))
    return b"BM" + struct.pack("<IHHIIIIHHIIIIII", 54 + len(px), 0, 0, 54, 40,
                               side, side, 1, 32, 0, len(px), 2835, 2835, 0,
                               0) + px


# ---- text of a scene file --------------------------------------------------
class Text:
    def __init__(self, rng, root):
        self.r, self.root = rng, root
        self.crlf = rng.random() < .2
        self.tight = rng.random() < .25

    def p(self, x):
        return self.r.random() < x

    def gap(self, must=False):
        """something that separates two words"""
        if self.tight:
            return " " if must else ""
        o = self.r.choice([" ", " ", "  ", "\t", "\n", "\n\n", "\r\n", " \n\t"])
        if self.p(.06):
            o += "#" + self.r.choice([
                "", " note", "width: 3", " } ] \"", "'", " material: \"x\"",
                " \\", " caf\xc3\xa9 $%&"]) + "\n"
        return o

    def sep(self):
        """between two statements"""
        if self.p(.25):
            return self.gap() + "," + self.gap()
        return self.gap(True) if not self.tight or self.p(.5) else "\n"

    def string(self, s):
        s = s.replace("@/", self.root + "/", 1) if s.startswith("@/") else s
        q = self.r.choice("\"'")
        return q + s + q

    def uint(self, n):
        return self.r.choice(["%d", "%d", "%d", "+%d", "0%d"]) % n

    def number(self, k):
        """k thousandths"""
        r = self.r
        if k % 1000 == 0 and self.p(.7):
            n = k // 1000
            return "%d" % n if n < 0 else self.uint(n)
        s, a = ("-" if k < 0 else r.choice(["", "", "+"])), abs(k)
        way = r.randrange(5)
        if way == 0:
            return s + "%de-3" % a
        if way == 1:
            return s + "%d.0E-03" % a
        if way == 2:
            return s + ("%.5f" % (a / 1000.0))
        if way == 3:
            return s + ("%.4fe+1" % (a / 10000.0) if a % 10 == 0 else
                        "%.3f" % (a / 1000.0))
        t = ("%.3f" % (a / 1000.0)).rstrip("0")
        t = t + "0" if t.endswith(".") else t
        return s + (t[1:] if t.startswith("0.") else t)

    def vector(self, v, f=None):
        f = f or self.number
        g = self.gap if self.p(.15) else (
            lambda: "" if self.tight or self.p(.6) else " ")
        return "[" + g() + (g() + "," + g()).join(f(x) for x in v) + g() + "]"

    def kv(self, key, value):
        g = (lambda: "" if self.tight or self.p(.8) else self.gap())
        return key + g() + ":" + (" " if not self.tight and self.p(.8)
                                  else g()) + value

    def block(self, key, parts, lead=True):
        """lead: commas and such are allowed at the beginning"""
        o = self.gap() + (",\n" if lead and self.p(.1) else "")
        for i, p in enumerate(parts):
            o += p
            if i + 1 < len(parts):
                o += self.sep()
        if self.p(.15) and len(parts) > (0 if lead else 1):
            o += self.gap() + ","
        return self.kv(key, "{" + o + self.gap() + "}")

    def mask(self, m):
        ref, chn, inv = m
        o = self.string(ref["text"])
        a = []
        if chn != "A" or self.p(.4):
            if self.p(.15):
                a.append("using channel " + self.r.choice("RGBA"))
            a.append("using channel " + chn)
        if inv:
            a.insert(self.r.randint(0, len(a)), "inverted")
        return o + "".join(self.gap(True) + x for x in a)

    def item(self, key, v, what):
        k = self.kv
        if key in ("width", "height", "spp", "temperature"):
            return k(key, self.uint(v))
        if key == "filter":
            return k("type", {"gaussian": self.r.choice(["gaussian", "gauss"]),
                              "tent": self.r.choice(["tent", "triangle"])
                              }.get(v, v))
        if key == "camera":
            return k("type", v)
        if key in ("sampler", "texture", "type", "distribution"):
            return k(key, v)
        if key == "element":
            return k(key, "".join(self.r.choice([c.lower(), c.upper()])
                                  for c in v))
        if key in ("out", "name", "material", "first", "second"):
            return k(key, self.string(v))
        if key == "src":
            return k(key, self.string(v["text"]))
        if key in ("diffuse", "specular"):
            if v["rgb"]:
                return k(key, self.vector(v["c"], self.level))
            return k(key, self.string(v["text"]))
        if key == "color":
            return k(key, self.vector(v, self.level))
        if key == "mask":
            return k(key, self.mask(v))
        if key == "scale" and len(set(v)) == 1 and self.p(.6):
            return k(key, self.number(v[0]))
        if key == "ior":
            if len(v) == 1:
                return k(key, self.number(v[0]))
            if len(v) == 6:
                return k(key, self.vector(v[:3]) + self.gap() +
                         self.vector(v[3:]))
        if isinstance(v, list):
            return k(key, self.vector(v))
        return k(key, self.number(v))

    def level(self, n):
        return self.uint(n) if self.p(.7) else self.number(n * 1000)

    def statement(self, st):
        if st["k"] in ("shape", "child"):
            return self.kv("shape" if st["k"] == "shape" else "material",
                           self.string(st["path"]["text"]))
        items = [self.item(a, v, st["k"]) for a, v in st["items"]]
        if st["k"] == "set":
            if st["group"] in ("resolution", "filter", "camera"):
                return self.block(st["group"], items)
            return items[0]
        return self.block(st["k"], items, st["k"] not in ("world", "light"))

    def file(self, sts):
        o = self.gap() if self.p(.5) else ""
        for i, s in enumerate(sts):
            o += self.statement(s) + (self.sep() if i + 1 < len(sts) else "")
            if self.p(.05):
                o += self.sep() + self.kv("integrator", "path")
                if i + 1 < len(sts):
                    o += self.sep()
        o += self.r.choice(["", "\n", " ", "\n# end", ",\n"])
        return o.replace("\r\n", "\n").replace("\n", "\r\n") if self.crlf \
            else o


# ---- cases -----------------------------------------------------------------
def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0])


def aimless(s):
    """a camera that looks along its up vector"""
    d = [t - p for t, p in zip(s["target"], s["position"])]
    n = sum(x * x for x in d) ** .5 * sum(x * x for x in s["up"]) ** .5
    return sum(x * x for x in cross(d, s["up"])) ** .5 < .05 * n


class Disk:
    def __init__(self, ctx):
        self.d = os.path.join(ctx.tmp, "scenes")
        os.makedirs(self.d)
        self.ctx, self.n = ctx, 0

    def put(self, c, look):
        rng = self.ctx.rng
        root = os.path.join(self.d, "s%d" % self.n)
        self.n += 1
        texts = {}

        def folder(p):
            d = os.path.join(root, *p)
            os.makedirs(d, exist_ok=True)
            return d
        for p in (["m"], ["m", "a"], ["m", "a", "b"], ["m", "c d"], ["x"]):
            folder(p)
        for f in c["fs"]:
            if f["t"] == "folder":
                folder(f["path"])
                continue
            if f["t"] == "image":
                data = bmp(f["path"])
            elif f["t"] == "obj":
                data = obj_text(f["meshes"], rng).encode()
            elif f["t"] == "junk":
                data = b"out: { not a scene ["
            else:
                data = Text(rng, root).file(f["sts"]).encode("latin-1")
            if f["t"] in ("scene", "obj"):
                texts["/".join(f["path"])] = data.decode("latin-1")
            with open(os.path.join(folder(f["path"][:-1]), f["path"][-1]),
                      "wb") as h:
                h.write(data)
        w = c["want"]
        for o in w["objects"]:
            if o["mesh"]["kind"] != "ball":
                o["tris"] = tris(o["mesh"])
        # sanitised values and the output file can be commented as well
        case = dict(root=root, main=c["main"], want=w, names=NAMES, look=look,
                    seed=rng.randrange(1 << 30),
                    may=["width", "height", "spp", "output", "Output"])
        p = root + ".json"
        with open(p, "w") as h:
            json.dump(case, h)
        return p, texts

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def check(ctx, binary, cases, what, look):
    d = Disk(ctx)
    cases = [c for c in cases if not aimless(c["want"]["set"])]
    jobs = [d.put(c, look) for c in cases]
    hits = 0
    for c, (p, texts), (st, t) in zip(cases, jobs, ctx.replay(
            binary, [j[0] for j in jobs], timeout=60)):
        if st == "ok" and t.startswith("ok"):
            hits += int(t.split()[-1])
            ctx.sample("%s: %d objects, %d materials, reported: %s" % (
                "/".join(c["main"]), len(c["want"]["objects"]),
                len(c["want"]["mats"]), c["want"]["bad"]))
        else:
            ctx.violation("%s: %s" % (what, t), dict(
                result=[st, t], main=c["main"], files=texts,
                disk=[[f["t"], f["path"]] for f in c["fs"]],
                want=c["want"]))
    d.close()
    ctx.extra["scenes"] = ctx.extra.get("scenes", 0) + len(cases)
    ctx.extra["rays that hit"] = ctx.extra.get("rays that hit", 0) + hits
    for k in ("objects", "mats", "texs", "bad"):
        ctx.extra["%s promised" % k] = ctx.extra.get("%s promised" % k, 0) + \
            sum(len(c["want"][k]) for c in cases)


def laws(ctx):
    """The laws of spec/ConfAlg.tla, for every short main file."""
    ctx.tlc("ConfAlg", dict(Max=3 if not ctx.thorough else 4), invariants=(
        "AnyOrder", "Sets", "LastCounts", "KidCounts", "Usable", "Twice",
        "Known", "OwnFolder", "Reported"), timeout=3000)
