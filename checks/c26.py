"""C26 contents and copies are exact"""
import random
from lib.core import cfg

B = dict(Kinds={"file", "mem", "copy"}, MaxSize=3, MaxChunk=3, MaxFaults=2, MaxOps=2, FixLoop=True, FixEmpty=True, FixShort=True, FixNone=True, Mutant="", Gen=False)
PREP = {"openread", "mmap", "short", "fill", "fail"}


def run(ctx):
    T = ctx.thorough
    ctx.model_check("Contents", cfg(dict(B, MaxSize=4 if T else 3, MaxOps=3 if T else 2), ["Allowed"], view="View"), name="all",
                    what="every way of providing the contents of a file or memory, every piece a read provides, every fault, every use, every copy")
    for f in ("FixLoop", "FixEmpty", "FixShort", "FixNone"):
        ctx.model_check("Contents", cfg(dict(B, **{f: False}), ["Allowed"], view="View"), expect_violation="Allowed", name="without " + f, what="negative control")
    for m in ("greedy", "again"):
        ctx.model_check("Contents", cfg(dict(B, Kinds={"copy"}, Mutant=m), ["Allowed"], view="View"), expect_violation="Allowed", name=m, what="negative control")
    rnd = random.Random("C26-%d" % ctx.seed)
    jobs = []
    for salt, (k, n, ops) in enumerate((("file", 900, 6), ("mem", 250, 8), ("copy", 700, 0))):
        g = ctx.generate("Contents", cfg(dict(B, Kinds={k}, MaxOps=ops, MaxFaults=3 if k == "file" else 1, Gen=True), ["PrintCase"]), num=n * (5 if T else 1), depth=40, salt=salt, what="cases: " + k)
        # (few copies differ in the model; what the pieces are is the driver's choice)
        for c in g * (6 if k == "copy" else 1):
            c = dict(c)
            h = c["h"]
            # what comes first: faults and pieces while the contents are provided
            used = len(h) >= ops and k != "copy" and not any(x["op"] == "openread" for x in h)
            c.update(prep=len(h) - ops if used else len(h), used=used, unit=rnd.choice([1, 1, 5, 60, 1365, 4096, 4096, 40000, 350000]))
            jobs.append(c)
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("contents", jobs, preload=ctx.shim(), what="contents of files and memory, copies of streams")
    ctx.validate("ContentsTrace", traces, what="every slice, index, read, piece and count")
