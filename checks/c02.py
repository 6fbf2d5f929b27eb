"""C02 loose writes are all-or-nothing under crash, fault and concurrency"""
import random
from lib.core import cfg

B = dict(Procs={1, 2}, Objs={1}, NCalls=1, NWrites=2, MaxFaults=2, MaxCrashes=1, Whats={"store", "copy", "has"},
         FixShort=True, FixClean=True, FixClose=True, FixSource=True, Gen=False)
INV = ["Complete", "Reported", "ReadOnly", "Readers"]
SIZES = [0, 1, 200, 5000, 5000, 70000]


def program(hist, n):
    progs = [[] for _ in range(n)]
    sched = []
    for h in hist:
        if h["o"]:
            progs[h["p"] - 1].append([h["w"], h["o"]])
        elif h["w"] in ("src", "ends"):
            # the number of the write it happens at: roughly that part of the object was read before
            c = progs[h["p"] - 1][-1]
            if len(c) == 2:
                c += [random.Random(str(hist)).choice([0, 0.4, 0.9]), 7 if h["w"] == "ends" else len(hist) % 7]
            sched.append([h["p"], "go"])
        elif h["p"]:
            sched.append([h["p"], h["w"]])
    return progs, sched


def run(ctx):
    T = ctx.thorough
    ctx.model_check("LooseWrite", cfg(B, INV, ["Stays"], view="View"), name="two processes, two faults, a crash",
                    what="every interleaving, fault and crash of two processes storing or reading one object")
    ctx.model_check("LooseWrite", cfg(dict(B, MaxFaults=1), INV, ["Stays", "Ends"], spec="FairSpec", view="View"), name="liveness", what="every call ends")
    ctx.model_check("LooseWrite", cfg(dict(B, Procs={1, 2, 3}, MaxFaults=1, Whats={"store"}), INV, ["Stays"], view="View"), name="three processes",
                    what="three processes storing one object")
    for f, i in (("FixShort", "Complete"), ("FixClean", "Reported"), ("FixClose", "Reported"), ("FixSource", "Complete")):
        ctx.model_check("LooseWrite", cfg(dict(B, **{f: False}), [i], view="View"), expect_violation=i, name="without " + f, what="negative control: as found")
    if T:
        ctx.model_check("LooseWrite", cfg(dict(B, NCalls=2, MaxFaults=2, Objs={1, 2}), INV, ["Stays"], view="View"), name="two calls each", timeout=800, mem="12g",
                        what="two processes with two calls each on two objects")
    g = ctx.generate("LooseWrite", cfg(dict(B, Procs={1, 2, 3}, Objs={1, 2}, NCalls=2, Whats={"store", "copy", "has", "info", "stream", "iter"}, Gen=True), ["PrintCase"]),
                     num=4000 if T else 700, depth=200, what="schedules with faults and crashes of three processes")
    g += ctx.generate("LooseWrite", cfg(dict(B, Procs={1, 2, 3}, MaxFaults=0, MaxCrashes=1, Whats={"store", "copy", "stream"}, Gen=True), ["PrintCase"]),
                      num=3000 if T else 500, depth=100, salt=1, what="schedules of three processes with one object")
    rnd = random.Random("C02-%d" % ctx.seed)
    jobs = []

    def sizes(k):
        # different objects
        return [z + j for j, z in enumerate(rnd.choice(SIZES) for _ in range(k))]
    for k in range(6 if T else 1):
        for what in ("store", "copy"):
            for z in (SIZES if T or what == "store" else [0, 5000]):
                jobs.append(dict(kind="faults", sizes=[z], progs=[[[what, 1]]], pre=[], double=40 if T else 10))
            # the object is there already; a second call after the fault; another process behind
            jobs.append(dict(kind="faults", sizes=[900], progs=[[[what, 1]]], pre=[1]))
            jobs.append(dict(kind="faults", sizes=[900, 30], progs=[[[what, 1], [rnd.choice(["store", "copy"]), rnd.choice([1, 2])], ["stream", 1]]], pre=[]))
            jobs.append(dict(kind="faults", sizes=[900], progs=[[[what, 1]], [["store", 1], ["stream", 1]]], pre=[]))
        jobs.append(dict(kind="faults", sizes=[900], progs=[[["stream", 1], ["info", 1], ["has", 1], ["iter", 1]]], pre=[1]))
        for a, b in (("store", "store"), ("store", "copy"), ("copy", "copy"), ("copy", "store"), ("store", "stream"), ("store", "info"), ("copy", "has"), ("store", "iter")):
            pr = [[a, 1]], [[b, 1]] if b in ("store", "copy") else [[b, 1], [b, 1]]
            jobs.append(dict(kind="pairs", sizes=sizes(1), progs=list(pr), pre=[], max=100000 if T else 140))
    # what is stored can't be read to its end
    for x in range(8):
        for what in ("store", "copy"):
            for _ in range(6 if T else 2):
                at = rnd.choice([0, 0.3, 0.7, 0.999])
                pr = [[[what, 1, at, x], [rnd.choice(["store", "copy"]), 1], ["stream", 1]]]
                if rnd.random() < .5:
                    pr.append([["store", 1], ["stream", 1]])
                jobs.append(dict(kind="source", sizes=[rnd.choice([900, 5000, 30000])], progs=pr, pre=rnd.choice([[], [], [1]])))
    # threads of one process, with a database each or a common one
    for _ in range(3 if T else 1):
        for a, b in (("store", "store"), ("store", "copy"), ("copy", "copy"), ("store", "has")):
            for k in (1, 2):
                if b != "has" or k == 1:
                    jobs.append(dict(kind="pairs", team=True, sizes=sizes(2), progs=[[[a, 1]], [[b, k]]], pre=[], max=400 if T else 50))
    for h in g:
        progs, sched = program(h, 3)
        # those of calls which don't map files also by threads (python holds its lock while it maps)
        team = rnd.random() < .4 and all(c[0] in ("store", "copy", "has") for q in progs for c in q)
        jobs.append(dict(kind="sched", team=team, sizes=sizes(2), progs=progs, pre=rnd.choice([[], [], [1], [2]]), scheds=[sched]))
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("fsloose", jobs, preload=ctx.shim(), timeout=850, what="stores, step by step, with faults, crashes and other processes")
    ctx.validate("LooseWriteTrace", traces, contract="LooseWrite", what="every state of the directory and every answer is allowed", timeout=800)
    ctx.assumptions.append("a crash is the end of the process, not of the machine: what was written before it stays")
