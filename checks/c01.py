"""C01 stored objects round-trip under their git identity"""
import random
from checks import storelib as sl

OPS = ["store", "has", "info", "stream", "size", "reopen"]


def run(ctx):
    sl.gen(ctx, "DbsLoose3", 4, 1, OPS, 5, check=True, what="the store contract is satisfiable and monotone")
    rnd = random.Random("C01-%d" % ctx.seed)
    short = sl.gen(ctx, "DbsLoose", 3, 1, OPS, 3 if ctx.thorough else 2, what="all histories of length 2 (thorough: 3)")
    long = sl.gen(ctx, "DbsLoose3", 4, 1, OPS, 12, num=300 if ctx.thorough else 60, what="random histories of length 12")
    rnd.shuffle(long)
    jobs = []
    for h in short:
        jobs.append(dict(hist=h, dbs=sl.DBS["DbsLoose"][0], nst=1, objs=sl.concrete_objs(rnd, 3, strs=True)))
    for k, h in enumerate(long[:6000 if ctx.thorough else 900]):
        jobs.append(dict(hist=h, dbs=sl.DBS["DbsLoose3"][0], nst=1, objs=sl.concrete_objs(rnd, 4, big=k % 30 == 0, strs=True)))
    # every boundary size as a plain and as an encoded store
    for n in sl.SIZES + sl.BIG:
        for enc in (False, True):
            o = sl.concrete_objs(rnd, 3)
            o[0].update(len=n)
            if n > 300000:
                o[0].update(content="random")
            jobs.append(dict(hist=[{"op": "store", "d": 1, "o": 1, "enc": enc}, {"op": "stream", "d": 2, "o": 1, "part": 0}],
                             dbs=sl.DBS["DbsLoose"][0], nst=1, objs=o))
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("objectstore", jobs, what="histories replayed into LooseObjectDB and GitDB")
    ctx.validate("ObjectStoreTrace", traces, what="observations are allowed by the store contract")
