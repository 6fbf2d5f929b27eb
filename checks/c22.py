"""C22 write streams hash, hand on and report exactly what is written"""
import random
from lib.core import cfg

KINDS = {"sha", "flex", "zip", "fdz", "fd"}
B = dict(Kinds=KINDS, MaxOps=4, MaxLen=2, MaxFaults=1, FixFlush=True, FixRelease=True, Mutant="", Gen=False)


def run(ctx):
    T = ctx.thorough
    ctx.model_check("WriteStream", cfg(dict(B, MaxOps=6 if T else 4, MaxFaults=2 if T else 1), ["Allowed", "Conserved"], view="View"), name="every kind",
                    what="every sequence of calls, every split between compressor and sink, every fault")
    for f, m in (("FixFlush", None), ("FixRelease", None), (None, "unhashed"), (None, "ret"), (None, "noflush")):
        kw = {f: False} if f else {"Mutant": m}
        ctx.model_check("WriteStream", cfg(dict(B, **kw), ["Allowed"], view="View"), expect_violation="Allowed", name="without %s" % f if f else m, what="negative control")
    rnd = random.Random("C22-%d" % ctx.seed)
    jobs = []
    for k in sorted(KINDS):
        for salt, (ops, faults) in enumerate(((5, 0), (9, 1), (20, 1))):
            g = ctx.generate("WriteStream", cfg(dict(B, Gen=True, Kinds={k}, MaxOps=ops, MaxFaults=faults), ["PrintCase"]), num=1500 if T else 250, depth=ops + 3, salt=salt,
                             what="sequences of calls on " + k)
            for c in g:
                jobs.append(dict(kind=k, h=c["h"], dev=k in ("fd", "fdz") and rnd.random() < .05))
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("writestream", jobs, what="write streams on memory, functions and descriptors which may be full")
    ctx.validate("WriteStreamTrace", traces, what="what arrives, digests and answers")
