"""C33: colours and spectra agree with the model (specs: Colour, ColourAlg,
ColourTab, SpecHist)."""
import json
from vt.core import CheckError, core_sources
from checks.common import LIBS


def run(ctx):
    exes = [("default", ctx.build("spec", ["spec.cpp"], core_sources(),
                                  defines=("DEBUG",), libs=LIBS)),
            ("wavelengths", ctx.build("specw", ["spec.cpp"], core_sources(),
                                      defines=("DEBUG", "SPECTRAL=1"),
                                      libs=LIBS))]
    ctx.tlc("ColourAlg", dict(TMin=300, TMax=40000,
                              TStep=20 if ctx.thorough else 400),
            invariants=("Monotone", "Ends", "Joined", "Curve", "Greys",
                        "Scaled", "Peak", "Wien", "Bluer", "Tint", "ExpLaw"),
            timeout=1800)
    nt = 400 if ctx.thorough else 60
    tab = ctx.sim("ColourTab", dict(NTemps=nt), 1, 3 * nt + 260, par=1)
    lin = {t["v"]: t["w"] for t in tab if t["k"] == "value"}
    if sorted(lin) != list(range(256)):
        raise CheckError("the table of component values is not complete")
    values = dict(k="values", w=[lin[v] for v in range(256)],
                  step=2 if ctx.thorough else 5)
    hist = ctx.sim("SpecHist", dict(Steps=30), 5000 if ctx.thorough else 400,
                   31, invariants=("Small", "Inverse", "Emit"))
    cases = [values] + [t for t in tab if t["k"] != "value"] + hist
    for c in hist:
        for s in c:
            if s["op"] != "set" and s["op"].rstrip("v=") not in \
                    ("fill", "copy", "poison", "+", "-", "*", "/"):
                raise CheckError("unknown step " + s["op"])
    texts = [json.dumps(c, separators=(",", ":")) for c in cases]
    seen = {}
    for name, exe in exes:
        out = ctx.replay(exe, texts, timeout=600)
        for c, (st, o) in zip(cases, out):
            k = "history" if isinstance(c, list) else c["k"]
            if st != "ok":
                ctx.violation("%s, %s build: %s" % (k, name, o),
                              dict(case=c, build=name))
                continue
            words, rest = [], []
            for w in o.split(" "):
                (words if w[:1] in "#=" and w else rest).append(w)
            for w in words:
                if w[0] == "#":
                    ctx.violation("%s, %s build: %s" % (k, name, w[1:]),
                                  dict(case=c, build=name), key=w[1:])
                else:
                    v = [float(x) for x in w[1:].split(",")]
                    u = seen.setdefault(c["t"], v)
                    if any(abs(a - b) > 1e-4 * (abs(a) + abs(b)) + 1e-6
                           for a, b in zip(u, v)):
                        rest.append("black body of %d K: XYZ %s in a build "
                                    "and %s in the other" % (c["t"], u, v))
            rest = " ".join(rest).strip()
            if rest:
                ctx.violation("%s, %s build: %s" % (k, name, rest),
                              dict(case=c, build=name))
    kinds = {}
    for c in cases:
        k = "history" if isinstance(c, list) else c["k"]
        kinds[k] = kinds.get(k, 0) + 1
    ctx.extra["cases"] = kinds
    ctx.sample(dict(case=cases[1]))
    ctx.sample(dict(case=hist[0][:3]))
