"""C21 packs of any size are read correctly"""
import random
from lib.core import cfg

B = dict(L=9, W=4, P=1, MaxEntries=3, MaxLen=2, MaxOps=3, Manager="static", Gen=False)


def run(ctx):
    T = ctx.thorough
    rnd = random.Random("C21-%d" % ctx.seed)
    ctx.model_check("BigPack", cfg(dict(B, L=11 if T else 9, P=2, MaxOps=4 if T else 3), ["Whole"], view="View"), name="static",
                    what="every layout of up to 3 entries in a file of 2 1/4 windows, every order of accesses, releases and reopening")
    ctx.model_check("BigPack", cfg(dict(B, Manager="sliding"), ["Whole"], view="View"), expect_violation="Whole", name="sliding windows",
                    what="negative control: as the code was found")
    cases = ctx.generate("BigPack", cfg(dict(B, L=30, MaxEntries=6, MaxOps=10, Gen=True), ["PrintCase"]), num=3000 if T else 400, depth=60,
                         what="layouts of up to 7 windows with access orders")
    jobs = [dict(es=c["es"], ops=c["ops"]) for c in cases[:2500 if T else 300]]
    for k in range(6 if T else 1):
        ops = [{"op": "read", "k": rnd.randrange(1, 7)} for _ in range(8)] + [{"op": "walk", "k": 1}, {"op": "read", "k": 2}]
        jobs.insert(k, dict(big=(1 << 30) + rnd.choice([-5000, 0, 12345678, 1]), ops=ops))
    for n, j in enumerate(jobs):
        j["n"] = n
    traces = ctx.drive("bigpack", jobs, what="sparse packs of up to 7.5 GiB and a solid one of more than 1 GiB", as_limit_gb=200, timeout=800)
    ctx.validate("PackReadTrace", traces, contract="PackRead", what="what is read is what the pack holds")
    ctx.assumptions.append("entries far into a pack are separated by holes, which only a walk from the start would notice")
