"""C05 malformed deltas are rejected, never resolved to wrong bytes"""
import random
from checks import deltalib as dl


def run(ctx):
    rnd = random.Random("C05-%d" % ctx.seed)
    a = dl.exhaustive(ctx, "every flawed delta over up to 3 units, up to 2 commands", MaxChain=1, MaxCmds=2, MaxLen=1, Flaw=True)
    b = dl.exhaustive(ctx, "every chain of two deltas with one flaw", MaxChain=2, MaxBase=2, MaxCmds=1, MaxLen=1, Flaw=True)
    c = dl.randomly(ctx, "random flawed chains", 20000 if ctx.thorough else 5000, 60, 1, MaxChain=5, MaxCmds=5, MaxBase=5, Flaw=True)
    g = dl.exhaustive(ctx, "well-formed deltas (must stay accepted)", MaxChain=1, MaxCmds=2, MaxLen=1)
    rnd.shuffle(a), rnd.shuffle(b), rnd.shuffle(c), rnd.shuffle(g)
    k = 6 if ctx.thorough else 1
    via = ["apply", "mem", "pack"]
    jobs = dl.jobs(rnd, a[:2000 * k] + b[:2000 * k] + c[:2000 * k], via, True, heavy=200 if ctx.thorough else 30)
    jobs += dl.jobs(rnd, g[:300], via, False, heavy=5)
    traces = ctx.drive("delta", dl.number(jobs, rnd), what="flawed delta chains offered to gitdb", as_limit_gb=4)
    ctx.validate("DeltaTrace", traces, what="flawed deltas are refused, others accepted")
