"""C29: folders (spec: Path, PathHist)."""
from checks import paths


def run(ctx):
    exe = paths.exe(ctx)
    k = 1 if not ctx.thorough else 20
    paths.replay(ctx, exe, paths.histories(ctx, 1000 * k, True, True), True)
    paths.replay(ctx, exe, paths.histories(ctx, 600 * k, True), True)
