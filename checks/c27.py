"""C27 repositories shared with git"""
import random
from lib.core import cfg

B = dict(N=2, MaxOps=5, MaxPacks=2, Dbs="<- Two", Mutant="", Gen=False)


def run(ctx):
    T = ctx.thorough
    ctx.model_check("Shared", cfg(dict(B, MaxOps=6 if T else 5), ["Allowed", "Faithful"], view="View"), name="in turns", what="every history of writes, packs, maintenance, refreshes and questions")
    for m in ("never", "alone", "loose"):
        ctx.model_check("Shared", cfg(dict(B, Mutant=m), ["Allowed"], view="View"), expect_violation="Allowed", name=m, what="negative control")
    jobs = []
    rnd = random.Random("C27-%d" % ctx.seed)
    for salt, (ops, n) in enumerate(((14, 260), (30, 90))):
        for h in ctx.generate("Shared", cfg(dict(B, N=8, Dbs="<- Three", MaxOps=ops, MaxPacks=99, Gen=True), ["PrintCase"]), num=n * (5 if T else 1), depth=ops + 3, salt=salt,
                              what="histories of %d steps" % ops):
            jobs.append(dict(h=h))
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("shared", jobs, timeout=850, what="repositories used by git and gitdb in turns")
    ctx.validate("SharedTrace", traces, what="each side reads what the other wrote")
