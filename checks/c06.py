"""C06 merging a delta chain into one delta preserves its meaning"""
import random
from checks import deltalib as dl
from lib.core import cfg


def run(ctx):
    rnd = random.Random("C06-%d" % ctx.seed)
    for kw in [dict(), dict(MaxChain=3, MaxBase=2, MaxLen=1), dict(MaxBase=1, MaxCmds=4, MaxLen=1)]:
        if ctx.thorough and "MaxCmds" not in kw:
            kw = dict(kw, MaxCmds=3)
        ctx.model_check("Delta", cfg(dict(dl.B, **kw), dl.MINV), what="the merging algorithm preserves meaning and tiles", name=str(kw), timeout=900)
    ctx.model_check("Delta", cfg(dict(dl.B, DropRigid=True), ["MergeMeansChain"]), expect_violation="MergeMeansChain", what="negative control", name="merge ends early")
    a = dl.exhaustive(ctx, "every chain of two deltas over up to 2 units, 2 commands", MaxChain=2, MaxBase=2, MaxLen=1)
    s = dl.exhaustive(ctx, "single deltas, up to 4 commands", MaxChain=1, MaxBase=2, MaxCmds=4, MaxLen=1)
    c = dl.randomly(ctx, "random chains", 20000 if ctx.thorough else 5000, 80, 1, MaxChain=8, MaxCmds=7, MaxBase=5)
    d = dl.randomly(ctx, "long chains", 1200 if ctx.thorough else 250, 400, 2, MaxChain=60, MaxCmds=5, MaxBase=4)
    d = [x for x in d if len(x["chain"]) >= 5]
    for q in (a, s, c, d):
        rnd.shuffle(q)
    k = 6 if ctx.thorough else 1
    jobs = dl.jobs(rnd, a[:2500 * k] + s[:800 * k] + c[:2000 * k] + d[:100 * k], ["merge"], False, heavy=100 if ctx.thorough else 12)
    traces = ctx.drive("delta", dl.number(jobs, rnd), what="chains merged by gitdb", as_limit_gb=4)
    ctx.validate("DeltaTrace", traces, what="merged deltas mean what the chain means")
