"""C20 descriptors are released with the streams that use them"""
import random
from lib.core import cfg

B = dict(H=2, K=1, NCalls=5, MaxFaults=2, FixWriter=True, FixInfo=True, FixShare=True, Gen=False)
INV = ["OnlyStreams", "Bounded"]
CALLS = ["info", "stream", "store", "copy", "has", "iter", "refresh", "verify"]


def run(ctx):
    T = ctx.thorough
    ctx.model_check("Descriptors", cfg(dict(B, NCalls=7 if T else 5), INV, view="View"), name="calls and faults", what="every sequence of calls with up to two failing steps, two streams")
    for f, i in (("FixWriter", "OnlyStreams"), ("FixInfo", "OnlyStreams"), ("FixShare", "Bounded")):
        ctx.model_check("Descriptors", cfg(dict(B, **{f: False}), [i], view="View"), expect_violation=i, name="without " + f, what="negative control")
    g = ctx.generate("Descriptors", cfg(dict(B, H=5, K=3, NCalls=25, MaxFaults=0, Gen=True), ["PrintCase"]), num=3000 if T else 400, depth=400, what="histories of 25 calls")
    l = ctx.generate("Descriptors", cfg(dict(B, H=3, K=3, NCalls=300, MaxFaults=0, Gen=True), ["PrintCase"]), num=60 if T else 12, depth=3000, salt=1, what="histories of 300 calls")
    rnd = random.Random("C20-%d" % ctx.seed)
    jobs = []

    def hist(h, db):
        out = [[x["w"], x["x"]] for x in h if x["w"] != "end"]
        for k in range(len(out)):
            if db != "loose" and rnd.random() < .06:
                out[k] = [rnd.choice(["newpack", "verify", "refresh"]), 1]
        return out
    for n, h in enumerate(g + l):
        db = ("loose", "packed", "git", "loose")[n % 4]
        jobs.append(dict(db=db, hist=hist(h, db), faults=rnd.choice([0, 0, .02, .1, .3])))
    for k in range(8 if T else 1):
        for db in ("loose", "packed", "git"):
            for w in CALLS:
                for _ in range(3 if w != "store" else 6):
                    jobs.append(dict(db=db, hist=[[w, 1], [rnd.choice(["read", "close", "drop"]), 1], [rnd.choice(CALLS), 1]], faults="each"))
            # each call on everything again and again
            for w in CALLS:
                jobs.append(dict(db=db, hist=[[w, 1]] * (300 if T else 60), faults=0))
                jobs.append(dict(db=db, hist=[[w, 1], ["drop", 1]] * (300 if T else 40), faults=.05))
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("fds", jobs, preload=ctx.shim(), timeout=850, what="calls on databases with failing system calls, descriptors counted after each")
    ctx.validate("DescriptorsTrace", traces, contract="Descriptors", what="descriptors held after every call")
    ctx.assumptions.append("descriptors are those of /proc/self/fd after a garbage collection; regions of the memory manager count for their pack")
