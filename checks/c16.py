"""C16 lock files exclude each other and change files only by commit"""
import random
from lib.core import cfg

B = dict(N=2, Shared=False, NCalls=3, MaxFaults=2, MaxCrashes=1, FixClose=True, FixRename=True, FixOpen=True, Gen=False)
INV = ["OneHolder", "Released", "ReadsContent"]
PROP = ["OnlyCommits", "OwnLock"]


def program(h, n, procs):
    progs = [[] for _ in range(max(procs))]
    sched = []
    for x in h:
        if x["s"]:
            sched.append([procs[x["p"] - 1], x["w"]])
        elif x["p"]:
            progs[procs[x["p"] - 1] - 1].append([x["p"], x["w"]])
    return progs, sched


def run(ctx):
    T = ctx.thorough
    ctx.model_check("LockFile", cfg(B, INV, PROP, view="View"), name="two holders", what="every interleaving, fault and crash of two processes with three calls each")
    ctx.model_check("LockFile", cfg(dict(B, N=3, NCalls=3 if T else 2, MaxFaults=1), INV, PROP, view="View"), name="three holders", what="three processes", timeout=800)
    ctx.model_check("LockFile", cfg(dict(B, N=3, Shared=True, NCalls=3 if T else 2, MaxFaults=1), INV, PROP, view="View"), name="two instances in a process",
                    what="two holders in one process, one in another", timeout=800)
    ctx.model_check("LockFile", cfg(dict(B, NCalls=2, MaxFaults=1), INV, PROP + ["Ends"], spec="FairSpec", view="View"), name="liveness", what="every call ends")
    for f in ("FixClose", "FixRename", "FixOpen"):
        ctx.model_check("LockFile", cfg(dict(B, **{f: False}), ["Released"], view="View"), expect_violation="Released", name="without " + f, what="negative control: as found")
    if T:
        ctx.model_check("LockFile", cfg(dict(B, NCalls=5), INV, PROP, view="View"), name="five calls", what="two processes with five calls each", timeout=800)
    rnd = random.Random("C16-%d" % ctx.seed)
    jobs = []
    for k, (shared, c) in enumerate(((False, dict(N=3, NCalls=4)), (True, dict(N=3, NCalls=4)), (False, dict(N=3, NCalls=3, MaxFaults=0, MaxCrashes=0)),
                                     (False, dict(N=2, NCalls=6, MaxFaults=3, MaxCrashes=0)))):
        procs = [1, 1, 2] if shared else list(range(1, c["N"] + 1))
        for g in ctx.generate("LockFile", cfg(dict(B, Gen=True, Shared=shared, **c), ["PrintCase"]), num=4000 if T else 400, depth=200, salt=k,
                              what="schedules with faults and crashes, " + str(c)):
            # processes are numbered without holes
            ps = [1, 1, 2] if shared else procs
            if shared:
                for x in g["h"]:
                    x["p"] = x["p"]
            progs, sched = program(g["h"], c["N"], ps)
            jobs.append(dict(kind="sched", procs=ps, progs=progs, sched=sched, absent=g["absent"], foreign=rnd.random() < .06))
    WR = [[1, "openw"], [1, "write"], [1, "write"], [1, "commit"]]
    ONE = [WR, WR[:3] + [[1, "rollback"]], WR[:3], WR[:3] + [[1, "drop"]], [[1, "openr"], [1, "read"], [1, "commit"]], [[1, "openr"], [1, "rollback"]],
           [[1, "openr"], [1, "read"]], [[1, "openw"], [1, "commit"], [1, "commit"], [1, "rollback"]], WR + [[1, "rollback"], [1, "openw"]], [[1, "openw"], [1, "openw"], [1, "write"], [1, "commit"]],
           [[1, "openr"], [1, "openr"], [1, "read"]], [[1, "commit"], [1, "openw"], [1, "write"], [1, "commit"]]]
    for k in range(5 if T else 1):
        for pr in ONE:
            for absent in (False, True):
                jobs.append(dict(kind="faults", procs=[1], progs=[pr], absent=absent, double=20 if T else 6))
            # a second holder behind, in the same or another process; somebody else's lock
            two = [[2, "openw"], [2, "write"], [2, "commit"]]
            jobs.append(dict(kind="faults", procs=[1, 1], progs=[pr + two], absent=False))
            jobs.append(dict(kind="faults", procs=[1, 2], progs=[pr, two], absent=False))
            jobs.append(dict(kind="faults", procs=[1], progs=[pr], absent=False, foreign=True, double=2))
        W2 = [[2, a] for _, a in WR]
        for a in ONE[:7]:
            for b in (W2, [[2, "openr"], [2, "read"], [2, "commit"]], W2[:3] + [[2, "rollback"]]):
                jobs.append(dict(kind="pairs", procs=[1, 2], progs=[a, b], absent=rnd.random() < .2, small=True))
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("fslock", jobs, preload=ctx.shim(), timeout=850, what="lock files, step by step, with faults, crashes and other holders")
    ctx.validate("LockFileTrace", traces, contract="LockFile", what="every state of file and lock and every answer is allowed", timeout=800)
    ctx.assumptions.append("a crash is the end of the process, not of the machine; creating a file exclusively and renaming are atomic")
