"""C18 redirected stores compute the same id and touch nothing"""
import random
from checks import storelib as sl

OPS = ["store", "has", "size", "setred", "ostream", "stream"]


def run(ctx):
    sl.gen(ctx, "DbsRed", 3, 2, OPS, 4, check=True, what="store contract with redirection")
    rnd = random.Random("C18-%d" % ctx.seed)
    short = sl.gen(ctx, "DbsRed", 2, 2, ["store", "setred", "ostream"], 3 if ctx.thorough else 2, what="all short histories")
    a = sl.gen(ctx, "DbsRed", 4, 2, OPS, 12, num=250 if ctx.thorough else 60, what="random histories", salt=1)
    rnd.shuffle(a)
    jobs = []
    for h in short[:20000]:
        jobs.append(dict(hist=h, dbs=sl.DBS["DbsRed"][0], nst=2, objs=sl.concrete_objs(rnd, 2, strs=True)))
    for i, h in enumerate(a[:8000 if ctx.thorough else 1500]):
        jobs.append(dict(hist=h, dbs=sl.DBS["DbsRed"][0], nst=2, objs=sl.concrete_objs(rnd, 4, big=i % 60 == 0, strs=True)))
    for ln in sl.SIZES + sl.BIG:
        for j in (1, 2, 3):
            for enc in (False, True):
                o = sl.concrete_objs(rnd, 2)
                o[0].update(len=ln)
                d = rnd.choice([1, 2])
                jobs.append(dict(hist=[{"op": "setred", "d": d, "j": j}, {"op": "store", "d": d, "o": 1, "enc": enc},
                                       {"op": "has", "d": 1, "o": 1}, {"op": "setred", "d": d, "j": -1}, {"op": "ostream", "d": d},
                                       {"op": "setred", "d": d, "j": 0}, {"op": "store", "d": d, "o": 1, "enc": enc}],
                                 dbs=sl.DBS["DbsRed"][0], nst=2, objs=o))
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("objectstore", jobs, what="histories replayed with redirected output streams")
    ctx.validate("ObjectStoreTrace", traces, what="observations are allowed by the store contract")
