"""C13 a packed database reflects the pack directory after refresh"""
from checks import storagelib as S


def run(ctx):
    S.model(ctx, "RPacked", 5 if ctx.thorough else 4, ["FixIdx"], nd=1)
    k = 6 if ctx.thorough else 1
    jobs = S.gen(ctx, "RPacked", 500 * k, 30, 1, 1) + S.gen(ctx, "RPacked", 150 * k, 80, 1, 2)
    S.finish(ctx, jobs, "a packed database while packs come and go")
