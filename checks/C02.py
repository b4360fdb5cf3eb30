"""C02: film accumulation (spec: Film, FilmGeo, FilmHist)."""
import json
from vt.core import core_sources, globs, CheckError

FILM_SRC = ("cameras/image_film.cpp", "samplers/filter_*.cpp",
            "utility/file.cpp", "utility/console.cpp", "utility/color.cpp",
            "utility/utility.cpp", "utility/spectrum.cpp")


def protocol(ctx):
    base = dict(TW=2, R2=2, Threads="{1, 2}", Rule='"interior"')
    inv = ("NothingLost", "NeverTwice", "NoTornPixel", "Mutex")
    runs = [dict(W=4, PerTile=1), dict(W=6, PerTile=1)]
    if ctx.thorough:
        runs += [dict(W=4, PerTile=2), dict(W=6, PerTile=2, TW=3, R2=3)]
    for r in runs:
        c = dict(base)
        c.update(r)
        ctx.tlc("Film", c, invariants=inv, spec="Spec",
                properties=("Termination",) if r == runs[0] else (),
                timeout=800)
    # the model must be able to see the defect the rule prevents
    c = dict(base, W=4, PerTile=1, Rule='"tile"')
    bad = ctx.tlc("Film", c, invariants=("NothingLost",), spec="Spec",
                  expect_violation=True, count=False)
    if bad.violated is None:
        raise CheckError("Film.tla cannot tell a lost update")


def geo(ctx, exe):
    dims = "{<<9, 7>>, <<64, 3>>}"
    cuts = "{<<0, 9>>, <<3, 7>>, <<0, 4>>, <<4, 9>>, <<0, 3>>, <<32, 64>>, <<5, 7>>}"
    rs = "{1, 2, 4}" if not ctx.thorough else "{1, 2, 3, 4, 5}"
    r = ctx.tlc("FilmGeo", dict(Dims=dims, Ranges=rs, Cuts=cuts,
                                Frac="{0, 1, 2, 3}"), invariants=("Emit",),
                timeout=300)
    rows = r.emitted
    cap = 60000 if ctx.thorough else 6000
    if len(rows) > cap:
        rows = ctx.rng.sample(rows, cap)
    res = ctx.replay(exe, ["G " + " ".join(map(str, x[:9])) for x in rows])
    for x, (st, out) in zip(rows, res):
        w, h = x[0], x[1]
        case = dict(kind="G", case=x[:9])
        if st != "ok":
            ctx.violation("adding one sample crashed: %s" % out, case)
            continue
        t = out.split()
        n = int(t[0])
        d = [(int(t[1 + 2 * i]), int(t[2 + 2 * i])) for i in range(n)]
        rest = t[1 + 2 * n:]
        if len(rest) != 4 or rest[0] != "0" or (int(rest[1]), int(rest[2])) != (w, h):
            ctx.violation("unexpected film outcome %s" % rest[:3], case)
            continue
        img = rest[3]
        hit = {(i % w, i // w) for i, c in enumerate(img) if c != "0"}
        bad = {(i % w, i // w) for i, c in enumerate(img) if c == "?"}

        def box(o):
            return {(a, b) for a in range(x[o], x[o + 1] + 1)
                    for b in range(x[o + 2], x[o + 3] + 1)}
        must, may, excl = box(9), box(13), box(17)
        if bad:
            ctx.violation("sample colour changed by averaging alone at %s"
                          % sorted(bad)[:3], case)
        if not must <= hit:
            ctx.violation("pixels %s in the filter support got nothing"
                          % sorted(must - hit)[:4], case)
        if not hit <= may:
            ctx.violation("pixels %s outside the filter support were changed"
                          % sorted(hit - may)[:4], case)
        if len(set(d)) != len(d):
            ctx.violation("a contribution was deferred twice", case)
        unsafe = hit - set(d) - excl
        if unsafe:
            ctx.violation("pixels %s are updated without the lock although "
                          "other threads reach them" % sorted(unsafe)[:4], case)
    ctx.sample(dict(kind="one sample", case=rows[0], result=res[0][1][:200]))


def hist(ctx, exe, tsan):
    filt = [("flat", "{1, 2, 3}"), ("bumpy", "{1, 2, 3}"), ("box", "{1}"),
            ("tent", "{2}"), ("gaussian", "{2}"), ("mitchell", "{2}"),
            ("lanczos", "{4}")]
    num = 40 if not ctx.thorough else 600
    cases = []
    for i, (name, rng) in enumerate(filt):
        for nt in (2, 3):
            r = ctx.tlc("FilmHist", dict(NThreads=nt, MaxOps=24, Range=rng,
                                         SchedLen=60),
                        invariants=("Emit",), simulate=num, depth=40,
                        count=True)
            for k, e in enumerate(r.emitted):
                cases.append("M %d %s %s" % (ctx.seed * 1000 + k, name,
                                             json.dumps(e, separators=(",", ":"))))
    ctx.extra["programs"] = len(cases)
    for label, ex in (("scheduled", exe), ("free", tsan)):
        if ex is None:
            continue
        env = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_bugs=1"}
        res = ctx.replay(ex, cases, timeout=30, env=env)
        bad = [i for i, (st, o) in enumerate(res)
               if st != "ok" or not o.startswith("OK")]
        # schedules of the operating system: believe only what repeats
        if label == "free" and bad:
            again = ctx.replay(ex, [cases[i] for i in bad for _ in range(3)],
                               timeout=30, env=env, count=False)
            bad = [i for n, i in enumerate(bad)
                   if any(s != "ok" or not o.startswith("OK")
                          for s, o in again[3 * n:3 * n + 3])]
        for i in bad:
            ctx.violation("%s threads: %s" % (label, res[i][1]),
                          dict(kind="M", run=label, case=cases[i]))
    ctx.sample(dict(kind="threads", case=cases[0][:600]))


def run(ctx):
    protocol(ctx)
    src = core_sources()
    libs = ("-lpthread", "-ldl", "-ljpeg", "-lpng", "-ltiff")
    exe = ctx.build("film", ["film.cpp"], src, defines=("DEBUG", "TESTS"),
                    libs=libs)
    tsan = ctx.build("film_tsan", ["film.cpp"], src,
                     defines=("DEBUG", "TESTS", "TSAN"), libs=libs + (
                         "-fsanitize=thread",), asan=False,
                     cflags=("-fsanitize=thread",))
    geo(ctx, exe)
    hist(ctx, exe, tsan)
    # whole renders: the saved image is made of the samples that were taken
    from checks import C01
    C01.run(ctx, image=True)
