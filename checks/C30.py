"""C30: descriptions of materials (specs: Conf, ConfHist)."""
from checks import conf


def run(ctx):
    exe = conf.exe(ctx)
    k = 1 if not ctx.thorough else 25
    conf.check(ctx, exe, conf.scenes(
        ctx, 800 * k, 10, 0, 0, 0,
        ["material", "material", "material", "texture"]), "materials",
        ["mat", "report"])
