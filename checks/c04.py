"""C04 delta chains resolve to the bytes their commands describe"""
import random
from checks import deltalib as dl
from lib.core import cfg


def run(ctx):
    rnd = random.Random("C04-%d" % ctx.seed)
    a = dl.exhaustive(ctx, "every chain of one delta over up to 3 units, up to 3 commands", MaxChain=1, MaxCmds=3)
    b = dl.exhaustive(ctx, "every chain of two deltas over up to 2 units", MaxChain=2, MaxBase=2, MaxLen=1)
    c = dl.randomly(ctx, "random chains", 20000 if ctx.thorough else 4000, 60, 1, MaxChain=12, MaxCmds=5, MaxBase=5)
    d = dl.randomly(ctx, "long chains", 1200 if ctx.thorough else 250, 400, 2, MaxChain=60, MaxCmds=4, MaxBase=4)
    d = [x for x in d if len(x["chain"]) >= 5]
    rnd.shuffle(a), rnd.shuffle(b), rnd.shuffle(c), rnd.shuffle(d)
    k = 6 if ctx.thorough else 1
    via = ["apply", "mem", "pack"]
    jobs = dl.jobs(rnd, a[:2500 * k] + b[:2500 * k] + c[:1500 * k] + d[:150 * k], via, False, heavy=300 if ctx.thorough else 50)
    jobs += dl.huge(rnd, a, 60 * k)
    traces = ctx.drive("delta", dl.number(jobs, rnd), what="delta chains resolved by gitdb", as_limit_gb=4)
    ctx.validate("DeltaTrace", traces, what="results are what the commands denote")
