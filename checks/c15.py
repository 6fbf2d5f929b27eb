"""C15 alternates follow the alternates file"""
from checks import storagelib as S


def run(ctx):
    S.model(ctx, "RRef", 4 if ctx.thorough else 3, ["FixCirc", "FixVanish"])
    k = 6 if ctx.thorough else 1
    jobs = S.gen(ctx, "RRef", 450 * k, 45, 4, 1) + S.gen(ctx, "RGit", 350 * k, 45, 4, 2)
    S.finish(ctx, jobs, "alternates files and the directories they list changing")
