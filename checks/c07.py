"""C07 written packs and indices are faithful and self-consistent"""
import random
from lib.core import cfg

B = dict(MaxObjs=3, Sizes={0, 1, 2}, Ids={1, 2, 3}, Flaws={"", "short", "long"}, Counts={0, 1, 2, 3, 4}, FixOffset=True)
SIZES = [0, 1, 15, 16, 17, 100, 2047, 2048, 2049, 4095, 4096, 8191, 8192, 65535, 65536, 262143, 262144, 262145]
BIG = [4096000 - 1, 4096000, 4096001, 8192000, 33554431, 33554432]


def run(ctx):
    rnd = random.Random("C07-%d" % ctx.seed)
    ctx.model_check("PackWrite", cfg(B, ["Refines"]), what="the writing algorithm meets the contract for every small collection", name="3 objects")
    ctx.model_check("PackWrite", cfg(dict(B, FixOffset=False), ["Refines"]), expect_violation="Refines", what="negative control", name="header not counted")
    a = ctx.generate("PackWrite", cfg(dict(B, MaxObjs=2), ["PrintCase"]), what="every collection of up to 2 objects")
    b = ctx.generate("PackWrite", cfg(dict(B, MaxObjs=12, Ids=set(range(1, 13)), Counts={0, 3, 8, 12}, Flaws={""}), ["PrintCase"]),
                     num=2500, depth=14, salt=1, what="random collections of up to 12 objects")
    rnd.shuffle(a), rnd.shuffle(b)
    k = 6 if ctx.thorough else 1
    jobs = []
    for c in a[:700 * k] + b[:700 * k]:
        u = sorted({o["u"] for o in c["objs"]})
        sizes = {str(x): rnd.choice(SIZES) if rnd.random() < .7 else int(2 ** rnd.uniform(0, 16)) for x in u}
        if u and len(c["objs"]) < 5 and rnd.random() < .05:
            sizes[str(u[0])] = rnd.choice(BIG)
        for o in c["objs"]:
            if o["flaw"] == "short" and sizes[str(o["u"])] == 0:
                sizes[str(o["u"])] = 7
        jobs.append(dict(objs=c["objs"], count=c["count"], index=rnd.random() < .85, sizes=sizes))
    for z in SIZES + BIG:
        jobs.append(dict(objs=[dict(u=1, flaw="")], count=0, index=True, sizes={"1": z}))
    # many objects
    for n in [256, 300, 1500]:
        jobs.append(dict(objs=[dict(u=i, flaw="") for i in range(n)], count=rnd.choice([0, n]), index=True, sizes={str(i): rnd.randrange(40) for i in range(n)}))
    jobs += [dict(rows=rnd.choice([0, 1, 2, 3, 5, 10, 40])) for _ in range(400 * k)] + [dict(rows=700)]
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("packwrite", jobs, what="collections written by gitdb, read by an independent parser")
    ctx.validate("PackWriteTrace", traces, what="the written files are faithful")
