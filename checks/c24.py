"""C24 failures while reading pass"""
import random
from lib.core import cfg

B = dict(P={1, 2}, MaxOps=6, MaxFaults=2, FixRecord=True, FixPartial=True, FixList=True, Gen=False)
INV = ["Knows", "Allowed"]


def run(ctx):
    T = ctx.thorough
    ctx.model_check("ReadFault", cfg(dict(B, P={1, 2, 3} if T else {1, 2}, MaxOps=7 if T else 6), INV, view="View"), name="failing steps", what="every sequence of queries, refreshes, changes and absences with up to two failing steps")
    for f in ("FixRecord", "FixPartial", "FixList"):
        ctx.model_check("ReadFault", cfg(dict(B, **{f: False}), INV, view="View"), expect_violation="Knows", name="as found: not " + f, what="negative control")
    g = ctx.generate("ReadFault", cfg(dict(B, P={1, 2, 3, 4, 5}, MaxOps=18, MaxFaults=6, Gen=True), ["PrintCase"]), num=4000 if T else 700, depth=40, what="programs of 18 operations")
    rnd = random.Random("C24-%d" % ctx.seed)
    jobs = []
    for n, h in enumerate(g):
        jobs.append(dict(kind=("packed", "git", "packed", "git", "loose", "ref")[n % 6], hist=[[x["w"], x["x"], x["f"]] for x in h if x["w"] != "end"]))
    # every failing step of the first query and of a refresh, then everything again
    for kind in ("packed", "git", "loose", "ref"):
        for k in range(1, 26):
            for rest in (0, 1):
                jobs.append(dict(kind=kind, hist=[["q", 1, [k, rest]]] + [["q", o, 0] for o in range(1, 7)] + [["plain", 0, 0]] + [["q", o, 0] for o in range(1, 7)]))
                for c in (1, 2, 5, 4):
                    jobs.append(dict(kind=kind, hist=[["q", 1, 0], ["change", c, 0], ["change", 3, 0], [rnd.choice(["plain", "force"]), 0, [k, rest]], ["q", 2, 0], ["plain", 0, 0]]
                                     + [["q", o, 0] for o in range(1, 7)]))
    for kind in ("packed", "git", "loose", "ref"):
        jobs.append(dict(kind=kind, hist=[["gone", 0, 0], ["q", 1, 0], ["back", 0, 0]] + [["q", o, 0] for o in range(1, 7)]))
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("readfault", jobs, preload=ctx.shim(), timeout=850, what="databases read while calls fail or the directory is gone")
    ctx.validate("ReadFaultTrace", traces, contract="ReadFault", what="never wrong, and right again afterwards")
