"""C17 the memory database behaves like storage and copies faithfully"""
import random
from checks import storelib as sl

OPS = ["store", "has", "info", "stream", "size", "copy"]


def run(ctx):
    sl.gen(ctx, "DbsMem", 3, 3, OPS, 4, check=True, what="store contract with copying")
    rnd = random.Random("C17-%d" % ctx.seed)
    short = sl.gen(ctx, "DbsMem", 2, 3, ["store", "copy", "stream", "info"], 3 if ctx.thorough else 2, what="all short histories")
    a = sl.gen(ctx, "DbsMem4", 4, 4, OPS, 12, num=250 if ctx.thorough else 50, what="random histories", salt=1)
    b = sl.gen(ctx, "DbsMem", 3, 3, ["store", "copy", "stream"], 8, num=250 if ctx.thorough else 50, what="random histories", salt=2)
    rnd.shuffle(a), rnd.shuffle(b)
    k = 5000 if ctx.thorough else 700
    jobs = []
    for h in short[:20000]:
        jobs.append(dict(hist=h, dbs=sl.DBS["DbsMem"][0], nst=3, objs=sl.concrete_objs(rnd, 2, strs=True)))
    for i, h in enumerate(a[:k]):
        jobs.append(dict(hist=h, dbs=sl.DBS["DbsMem4"][0], nst=4, objs=sl.concrete_objs(rnd, 4, big=i % 40 == 0, strs=True)))
    for i, h in enumerate(b[:k]):
        jobs.append(dict(hist=h, dbs=sl.DBS["DbsMem"][0], nst=3, objs=sl.concrete_objs(rnd, 3, big=i % 40 == 0, strs=True)))
    for n, ln in enumerate(sl.SIZES + sl.BIG):
        for enc in (False, True):
            o = sl.concrete_objs(rnd, 2, strs=True)
            o[0].update(len=ln)
            jobs.append(dict(hist=[{"op": "store", "d": 1, "o": 1, "enc": enc}, {"op": "stream", "d": 1, "o": 1, "part": 1},
                                   {"op": "stream", "d": 1, "o": 1, "part": 0},
                                   {"op": "copy", "d": 1, "to": 2, "os": [1]}, {"op": "copy", "d": 1, "to": 3, "os": [2, 1]},
                                   {"op": "copy", "d": 3, "to": 1, "os": [2]}],
                             dbs=sl.DBS["DbsMem"][0], nst=3, objs=o))
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("objectstore", jobs, what="histories replayed into MemoryDB, LooseObjectDB and GitDB")
    ctx.validate("ObjectStoreTrace", traces, what="observations are allowed by the store contract")
