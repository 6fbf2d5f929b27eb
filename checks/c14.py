"""C14 a composite database is the union of its parts"""
from checks import storagelib as S


def run(ctx):
    S.model(ctx, "RGit", 4 if ctx.thorough else 3, S.FIXES)
    k = 6 if ctx.thorough else 1
    jobs = S.gen(ctx, "RGit", 350 * k, 40, 3, 1)
    jobs += S.gen(ctx, "RComp", 250 * k, 40, 4, 2) + S.gen(ctx, "RComp2", 250 * k, 40, 4, 3) + S.gen(ctx, "RLoose", 60 * k, 20, 1, 4)
    S.finish(ctx, jobs, "composite databases while their parts change")
