"""Path objects and folders (spec: Path, PathAlg, PathHist)."""
import os
from vt.core import globs

NAMES = [("a", ""), ("a", ""), ("b", ""), ("cc", ""), ("f.txt", "txt"),
         ("n.tar.gz", "gz"), (".h", ""), (".h.x", "x"), ("...", ""),
         ("..z", "z"), ("z..", ""), ("$L", ""), ("s p", ""), (" n", ""), ("q.PPM", "PPM"),
         ("..", ""), ("..", ""), (".", ""), ("", "")]
LONG = "v" * 255


def tla(p):
    return "<<" + ",".join('<<"%s","%s">>' % c for c in p) + ">>"


def histories(ctx, num, fs, small=False):
    depth = len([x for x in ctx.tmp.split("/") if x]) + 2
    cwd = tuple(("$%d" % i, "") for i in range(depth))
    names = NAMES if not small else [n for n in NAMES if n[0] in
                                     ("a", "f.txt", ".h", "$L", "..")]
    # a set cannot hold duplicates: frequent names are spelled more than once
    return ctx.sim("PathHist", dict(
        Cwd=tla(cwd), Toks="{" + ",".join('<<"%s","%s">>' % n
                                          for n in sorted(set(names))) + "}",
        Slots="1..3", MaxTok=2 if small else 5,
        FsOps="TRUE" if fs else "FALSE"), num, 60,
        invariants=("Emit", "Tree", "Resolved", "Inside"))


def hexs(s):
    return s.encode().hex() or "-"


def unhex(s):
    return "" if s == "-" else bytes.fromhex(s).decode("latin-1")


def line(h):
    out = []
    for o in h:
        if o["op"] in ("new", "app"):
            a = hexs("".join(o["a"]).replace("$L", LONG))
        elif o["op"] in ("copy", "asg", "par"):
            a = str(o["a"][0])
        elif o["op"] in ("touch", "remove"):
            p = [x for x in o["see"] if x["s"] == o["s"]][0]["path"]
            a = hexs("".join("/" + x.replace("$L", LONG) for x in p
                             if x[:1] != "$" or x == "$L"))
        else:
            a = "-"
        out.append("%s %d %s" % (o["op"], o["s"], a))
    return " ".join(out)


def judge(h, text, fs):
    parts = text.split(" | ")
    w = unhex(parts[0].strip()).split("/")[1:]

    def real(p):
        r = []
        for x in p:
            r.append(LONG if x == "$L" else w[int(x[1:])] if x[:1] == "$"
                     else x)
        return r
    if parts[-1].strip() != "e0":
        return "folders created outside the requested path"
    for i, (o, t) in enumerate(zip(h, parts[1:-1])):
        items = t.split()
        where = "step %d %s %s: " % (i, o["op"], "".join(
            str(x) for x in o["a"])[:120])
        if o["op"] in ("mkdir", "mkdirs") and fs:
            if items[0] != "r%d" % o["r"]:
                return where + "reported %s" % items[0]
        if o["op"] == "ls" and fs:
            got = sorted(unhex(x[1:]) for x in items if x[0] == "l")
            want = sorted("/" + "/".join(real(p)) for p in o["r"])
            if got != want:
                return where + "lists %s, not %s" % (got, want)
        got = {int(x[1]): x[3:].split(":") for x in items if x[0] == "s"}
        if len(got) != len(o["see"]):
            return where + "missing objects"
        for e in o["see"]:
            a, n, x, st = got[e["s"]]
            p = real(e["path"])
            want = "/" + "/".join(p)
            if unhex(a) != want:
                return where + "path %r, expected %r" % (unhex(a), want)
            name = p[-1] if p else "/"
            if unhex(n) != name:
                return where + "name %r of %r" % (unhex(n), want)
            if not fs:
                ext = unhex(x)
                # the parent of something is a folder, which has no extension
                if ext != e["ext"] and not (ext == "" and e["s"] in o["par"]):
                    return where + "extension %r of %r" % (ext, want)
            if fs and e["known"]:
                if st[0] != "01"[e["ex"]]:
                    return where + "existence of %r" % want
                if e["fresh"] and st[1:] != "%d%d" % (e["dir"], e["file"]):
                    return where + "%r is folder/file: %s" % (want, st[1:])
    return None


def mark_parents(h):
    """Slots whose path was obtained as a parent folder."""
    par = set()
    for o in h:
        if o["op"] == "par" or (o["op"] in ("copy", "asg") and
                                o["a"][0] in par):
            par.add(o["s"])
        elif o["op"] in ("new", "app", "copy", "asg"):
            par.discard(o["s"])
        o["par"] = sorted(par)


def exe(ctx):
    return ctx.build("file", ["file.cpp"], globs("utility/file.cpp"))


def replay(ctx, exe, hs, fs):
    # whole histories after the first operation that sets a slot
    cases = []
    for h in hs:
        mark_parents(h)
        cases.append(line(h))
    for h, c, (st, out) in zip(hs, cases, ctx.replay(exe, cases)):
        bad = out if st != "ok" else judge(h, out, fs)
        if bad:
            ctx.violation("path history: " + bad, dict(case=c))
    if hs:
        ctx.sample(dict(history=[(o["op"], o["s"], o["a"]) for o in hs[0]][:8]))
