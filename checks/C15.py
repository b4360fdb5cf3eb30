"""C15: lexical path resolution (spec: Path, PathAlg, PathHist)."""
from checks import paths


def run(ctx):
    ctx.tlc("PathAlg", dict(Names='{"a","b",".","..",""}',
                            MaxLen=3 if not ctx.thorough else 4),
            invariants=("NoDots", "Idempotent", "Concat", "ParentIsDotDot",
                        "ChildOfParent", "Shorter"))
    exe = paths.exe(ctx)
    k = 1 if not ctx.thorough else 20
    paths.replay(ctx, exe, paths.histories(ctx, 1200 * k, False), False)
    paths.replay(ctx, exe, paths.histories(ctx, 800 * k, False, True), False)
