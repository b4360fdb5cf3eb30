"""C09: names in scene files (specs: Conf, ConfHist, ConfAlg)."""
from checks import conf

KINDS = ["plain", "texture", "dual", "shape", "shape", "world", "world",
         "light"]


def run(ctx):
    conf.laws(ctx)
    exe = conf.exe(ctx)
    k = 1 if not ctx.thorough else 25
    look = ["tex", "mat", "obj", "report"]
    conf.check(ctx, exe, conf.scenes(ctx, 420 * k, 20, 8, 2, 0, KINDS),
               "declared names", look)
    conf.check(ctx, exe, conf.scenes(ctx, 300 * k, 18, 8, 2, 1, KINDS),
               "names and missing names", look)
