"""C06: what OBJ files mean (specs: Obj, ObjHist, ObjRead)."""
from checks import objs


def reader(ctx):
    """The buffered reader delivers the lines of every small file."""
    ctx.tlc("ObjRead", dict(MaxLen="6" if not ctx.thorough else "8",
                            Sizes="{1,2,3,4}"),
            invariants=("Prefix", "Lines"), properties=("Ends",),
            spec="Spec")


def run(ctx):
    exes = objs.binaries(ctx)
    k = 1 if not ctx.thorough else 20
    reader(ctx)
    cases = objs.histories(ctx, 420 * k, 90, False) + \
        objs.histories(ctx, 300 * k, 30, False)
    objs.check(ctx, exes, cases)
    for n in (120, 254):
        objs.check(ctx, exes[1:] * 2, objs.histories(ctx, 2, 5, False, n), n)
    ctx.extra["files"] = len(cases)
    ctx.extra["meshes"] = sum(len(c["meshes"]) for c in cases)
    ctx.extra["faces"] = sum(len(m["faces"]) for c in cases
                             for m in c["meshes"])
