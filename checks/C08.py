"""C08: settings of the scene files (specs: Conf, ConfHist, ConfAlg)."""
from checks import conf


def run(ctx):
    conf.laws(ctx)
    exe = conf.exe(ctx)
    k = 1 if not ctx.thorough else 25
    look = ["set", "report"]
    conf.check(ctx, exe, conf.scenes(ctx, 700 * k, 9, 1, 2, 0, ["set"]),
               "settings", look)
    conf.check(ctx, exe, conf.scenes(ctx, 200 * k, 2, 0, 0, 0, ["set"]),
               "few settings", look)
    conf.check(ctx, exe, conf.scenes(
        ctx, 200 * k, 20, 2, 3, 0,
        ["set", "set", "set", "texture", "material", "dual", "shape",
         "world"]), "settings among declarations", look)
