"""Jobs for the Storage specification (C13, C14, C15)"""
import random
from lib.core import cfg

ROOTS = {
    "RPacked": [dict(d=1, t="packed")],
    "RLoose": [dict(d=1, t="loose")],
    "RGit": [dict(d=1, t="git")],
    "RRef": [dict(d=1, t="ref")],
    "RComp": [dict(d=1, t="packed"), dict(d=2, t="loose"), dict(d=3, t="git")],
    "RComp2": [dict(d=2, t="mem"), dict(d=1, t="git"), dict(d=3, t="packed")],
}
PACKS = {"P2": [[1], [1, 2]], "P5": [[1, 2], [2, 3], [4], [1, 2, 3, 4], [5, 6, 1, 2, 3, 4], []]}
FIXES = ["FixIdx", "FixDiscover", "FixLoose", "FixVanish", "FixCirc", "FixCache"]


def consts(roots, packs="P2", no=2, nd=2, **kw):
    d = dict(ND=nd, NO=no, PackObjs="<- " + packs, Roots="<- " + roots, Single=len(ROOTS[roots]) == 1, MaxEnv=3, MaxOps=2, Len_=0,
             WithImpl=True, Junk={0}, **{f: True for f in FIXES})
    d.update(kw)
    return d


def model(ctx, roots, maxenv, fixes=(), **kw):
    inv = ["Answers", "RefreshIsExact", "Consistent"]
    ctx.model_check("StorageGen", cfg(consts(roots, MaxEnv=maxenv, **kw), inv), name="%s, %d changes" % (roots, maxenv),
                    what="an implementation shaped like gitdb answers as the contract allows", timeout=900)
    for f in fixes:
        ctx.model_check("StorageGen", cfg(consts(roots, **dict(kw, MaxEnv=3, **{f: False})), ["Answers"]), expect_violation="Answers",
                        what="negative control", name="as found: not " + f)


def gen(ctx, roots, num, length, nd, salt, what="", junk=frozenset({0, 90, 91, 92, 93, 94, 95, 96})):
    h = ctx.generate("StorageGen", cfg(consts(roots, "P5", 6, nd, MaxEnv=10 ** 6, MaxOps=10 ** 6, Len_=length, WithImpl=False, Junk=set(junk)), ["PrintHist"]),
                     num=num, depth=length + 3, salt=salt, what=what or "histories for " + roots)
    return [dict(roots=ROOTS[roots], single=len(ROOTS[roots]) == 1, nd=nd, no=6, packs=PACKS["P5"], hist=x) for x in h]


def finish(ctx, jobs, what):
    rnd = random.Random("%s-%d" % (ctx.prop, ctx.seed))
    rnd.shuffle(jobs)
    for n, j in enumerate(jobs):
        j["n"] = n
    traces = ctx.drive("storage", jobs, what=what, as_limit_gb=4)
    ctx.validate("StorageTrace", traces, what="answers of the database under a changing environment")
