"""C12 creating a pack on disk is all-or-nothing, also for readers"""
import random
from lib.core import cfg

B = dict(Creators={1}, Readers={3}, Same=False, NW=2, NReads=2, MaxFaults=2, MaxCrashes=1, FixClean=True, FixShort=True, FixIdx=True, Gen=False)
INV = ["VisibleRight", "NoReaderError", "ReaderSees", "Reported"]


def run(ctx):
    T = ctx.thorough
    ctx.model_check("PackCreate", cfg(B, INV, ["Stays"], view="View"), name="a creation and a reader", what="every fault, crash and interleaving of a creation with a reader refreshing twice")
    ctx.model_check("PackCreate", cfg(dict(B, Creators={1, 2}, Readers=set() if not T else {3}, NW=1, NReads=1), INV, ["Stays"], view="View"), name="two creations",
                    what="two creations of different packs", timeout=800, mem="12g")
    ctx.model_check("PackCreate", cfg(dict(B, Creators={1, 2}, Same=True, MaxFaults=0, NW=1), INV, ["Stays"], view="View"), name="the same pack twice",
                    what="two creations of the same pack, crashes only")
    ctx.model_check("PackCreate", cfg(dict(B, Readers={3, 4}, NReads=1, NW=1), INV, ["Stays"], view="View"), name="two readers", what="a creation and two readers", timeout=800)
    ctx.model_check("PackCreate", cfg(dict(B, Readers=set()), INV, ["Ends"], spec="FairSpec", view="View"), name="liveness", what="every creation ends")
    for f, i in (("FixClean", "Reported"), ("FixShort", "VisibleRight"), ("FixIdx", "NoReaderError")):
        ctx.model_check("PackCreate", cfg(dict(B, **{f: False}), [i], view="View"), expect_violation=i, name="without " + f, what="negative control: as found")
    g = ctx.generate("PackCreate", cfg(dict(B, Creators={1, 2}, Readers={3}, Gen=True), ["PrintCase"]), num=1500 if T else 120, depth=120,
                     what="schedules of two creations and a reader with faults and crashes")
    g2 = ctx.generate("PackCreate", cfg(dict(B, Creators={1}, Readers={2, 3}, MaxFaults=0, MaxCrashes=0, Gen=True), ["PrintCase"]), num=1500 if T else 120, depth=120, salt=1,
                      what="schedules of a creation and two readers")
    rnd = random.Random("C12-%d" % ctx.seed)

    def create(objs, bad="", level=None):
        return dict(objs=objs, how=rnd.choice(["iter", "list"]) if not bad else "iter", bad=bad, level=level or rnd.choice([0, 1, 9]))

    def look(n, keep):
        return dict(reads=n, keep=keep)
    jobs = []
    for k in range(6 if T else 1):
        for packs, objs in (([], [1, 2, 3]), ([[1, 2]], [3, 4]), ([[1], [2, 3]], [3, 4, 5]), ([[1, 2]], [1, 2]), ([], [1])):
            jobs.append(dict(kind="faults", packs=packs, progs=[create(objs)], writes=60 if T else 10, double=30 if T else 8))
        # a second creation behind the failing one
        jobs.append(dict(kind="faults", packs=[[1]], progs=[create([2, 3]), create([2, 3])], writes=20 if T else 6, double=6))
        jobs.append(dict(kind="faults", packs=[[1]], progs=[create([2, 3]), create([4])], writes=20 if T else 6, double=6))
        # the same pack is there already
        jobs.append(dict(kind="faults", packs=[[1]], progs=[create([2, 3], level=1), create([2, 3], level=1)], writes=20 if T else 6, double=40 if T else 15, last=True))
        for bad in ("iter", "raise", "short", "count"):
            for _ in range(3):
                jobs.append(dict(kind="plain", packs=[[1]], progs=[create(rnd.choice([[2, 3], [2, 3, 4], [2]]), bad)]))
            jobs.append(dict(kind="faults", packs=[[1]], progs=[create([2, 3], bad)], writes=5, double=3))
        for keep in (True, False):
            for packs, objs in (([[1, 2]], [3, 4]), ([], [1, 2]), ([[1, 2]], [1, 2, 3])):
                jobs.append(dict(kind="readers", packs=packs, progs=[create(objs), look(2, keep)], max=1000 if T else 90))
        jobs.append(dict(kind="readers", packs=[[1, 2]], progs=[create([3, 4]), create([5, 6]), look(2, True)], max=400 if T else 30))
        for n in (1, 2, 5, 40):
            jobs.append(dict(kind="plain", packs=[], progs=[create(list(range(1, n + 1)))]))
    for h in g:
        jobs.append(dict(kind="sched", packs=[[1, 2]], progs=[create([3, 4]), create(rnd.choice([[5, 6], [5, 6], [4, 5]])), look(2, rnd.random() < .5)],
                         scheds=[[[x["p"], x["w"]] for x in h if x["p"]]]))
    for h in g2:
        jobs.append(dict(kind="sched", packs=rnd.choice([[], [[1, 2]]]), progs=[create([3, 4]), look(2, True), look(2, False)], scheds=[[[x["p"], x["w"]] for x in h if x["p"]]]))
    for j in jobs:
        # creations by threads of one process
        cs = [p for p in j["progs"] if "objs" in p]
        if len(cs) > 1 and (j["kind"] == "sched" and rnd.random() < .4 or j["kind"] == "readers"):
            for p in cs:
                p["team"] = True
    for n, j in enumerate(jobs):
        j.update(n=n, nobj=max([6] + [k for p in j["progs"] for k in p.get("objs", [])]))
    rnd.shuffle(jobs)
    traces = ctx.drive("fspack", jobs, preload=ctx.shim(), timeout=850, what="creations, step by step, with faults, crashes and readers")
    ctx.validate("PackCreateTrace", traces, contract="PackCreate", what="what every database finds after every step and every answer is allowed", timeout=800)
    ctx.assumptions.append("a crash is the end of the process, not of the machine: what was written before it stays")
    ctx.assumptions.append("readers which refresh without force may go by the time stamp of the directory, and find the new pack later")
