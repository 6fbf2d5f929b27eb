"""C19 concurrent lookups never miss a present object"""
import random
from lib.core import cfg

B = dict(Threads={1, 2}, NPack=2, PerThread=2, Interval=2, FixSort=True, FixCursor=True, FixMap=True)


def run(ctx):
    ctx.model_check("PackThreads", cfg(B, ["Answers"], ["Ends"]), name="two threads, two lookups each",
                    what="every interleaving of lookups, reordering, mapping and reading answers right and ends")
    ctx.model_check("PackThreads", cfg(dict(B, Threads={1, 2, 3}, PerThread=1, NPack=3), ["Answers"]), name="three threads, three packs",
                    what="every interleaving of lookups, reordering, mapping and reading answers right")
    for f, kw in (("FixSort", {}), ("FixCursor", {}), ("FixMap", dict(Threads={1, 2, 3}, PerThread=1))):
        ctx.model_check("PackThreads", cfg(dict(B, **{f: False}, **kw), ["Answers"]), expect_violation="Answers", name="without " + f,
                        what="negative control: as the code was found")
    if ctx.thorough:
        ctx.model_check("PackThreads", cfg(dict(B, Threads={1, 2, 3}, PerThread=2, NPack=2), ["Answers"], constraint="Small"),
                        name="three threads, two lookups each", what="the same, deeper", timeout=800, mem="12g")
    rnd = random.Random("C19-%d" % ctx.seed)
    jobs = []
    T = ctx.thorough
    hows = ["has", "info", "stream", "rest", "partial"]
    # around the reordering, everywhere one switch
    for k in range(60 if T else 16):
        warm = rnd.choice([0, 0, 499, 499, 500, 500, 998, 1000, 1, 37]) if k > 6 else [0, 499, 500, 0, 500, 1000, 499][k]
        jobs.append(dict(kind="sched", plan="one", npack=rnd.choice([2, 3, 4]), version=rnd.choice([2, 2, 1]), nthread=2,
                         per=rnd.choice([1, 2]), hows=rnd.choice([["has"], hows, ["stream"], ["info", "has"]]), warm=warm,
                         cold=k % 3 == 1, ops=False, same=rnd.random() < .3, max=100000 if T else 500))
    # reading out of the same pack
    for k in range(30 if T else 8):
        jobs.append(dict(kind="sched", plan="one", npack=1 if k % 2 else 2, version=2, nthread=2, per=1, hows=["stream", "info", "rest"],
                         warm=rnd.choice([1, 3]), cold=k % 4 == 3, ops=False, max=100000 if T else 400))
    # between any two bytecodes
    for k in range(30 if T else 8):
        jobs.append(dict(kind="sched", plan="one", npack=rnd.choice([2, 3]), version=2, nthread=2, per=1, hows=hows,
                         warm=rnd.choice([0, 500, 499, 3]), cold=k % 2 == 0, ops=True, max=6000 if T else 250))
    # several switches, up to four threads
    for k in range(80 if T else 24):
        jobs.append(dict(kind="sched", plan="many", npack=rnd.choice([1, 2, 3]), version=rnd.choice([1, 2]), nthread=rnd.choice([2, 3, 3, 4]),
                         per=rnd.choice([1, 2, 3]), hows=hows, warm=rnd.choice([0, 0, 499, 500, 498, 2]), cold=k % 2 == 0, ops=k % 4 == 3,
                         max=2000 if T else 120))
    for k in range(24 if T else 8):
        jobs.append(dict(kind="stress", npack=rnd.choice([2, 4, 8]), version=2, nthread=rnd.choice([2, 4, 6]), per=20000 if T else 2500,
                         hows=rnd.choice([["has"], hows, ["stream", "info"]])))
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("packthreads", jobs, timeout=800, what="threads looking up under a controlled scheduler, and freely")
    ctx.validate("PackThreadsTrace", traces, contract="PackThreadsContract", what="every answer is the one given to a thread alone")
    ctx.assumptions.append("threads switch between any two lines or bytecodes of gitdb and smmap, not inside C calls")
