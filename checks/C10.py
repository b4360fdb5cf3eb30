"""C10: paths and included files (specs: Path, Conf, ConfHist, ConfAlg)."""
from checks import conf


def run(ctx):
    conf.laws(ctx)
    exe = conf.exe(ctx)
    k = 1 if not ctx.thorough else 25
    look = ["tex", "mat", "obj", "report"]
    conf.check(ctx, exe, conf.scenes(
        ctx, 400 * k, 16, 4, 3, 0,
        ["texture", "texture", "plain", "dual", "shape", "shape", "world"]),
        "paths", look)
    conf.check(ctx, exe, conf.scenes(
        ctx, 400 * k, 14, 3, 3, 1,
        ["texture", "plain", "dual", "shape", "shape", "child", "child",
         "world"]), "paths and missing files", look)
