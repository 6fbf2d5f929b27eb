"""C03 object streams deliver exactly the content"""
import random
from lib.core import cfg

WR = dict(MaxC=5, MaxProd=2, MaxU=8, MaxHdr=1, Trail={0, 2}, Sizes={0, 1, 2, 3, 4}, MaxOps=4, MinWin=2, HdrWin=4,
          Page=3, FixSeek=True, FixOver=True, FixEmpty=True, FixScrub=True, FixTail=True)
INV = ["ReadExact", "CLenExact", "CLenTerminates"]


def streams(rnd, n):
    """stream specifications: a covering core, then random ones"""
    sizes = [0, 1, 2, 7, 8, 9, 100, 511, 512, 513, 4000, 8178, 8183, 8184, 8185, 8191, 8192, 8193, 10000, 65535, 65536, 70000, 200000]
    big = [1000 * 4096 - 1, 1000 * 4096, 1000 * 4096 + 1]
    out = []
    kinds = ["raw", "lazy", "new", "loose", "mem", "pack", "delta"]
    for k in kinds:
        for s in [0, 1, 8185, 70000]:
            out.append(dict(kind=k, len=s))
    for k in ["raw", "new", "pack"]:
        out.append(dict(kind=k, len=rnd.choice(big), content=rnd.choice(["text", "mixed"])))
    while len(out) < n:
        out.append(dict(kind=rnd.choice(kinds), len=rnd.choice(sizes) if rnd.random() < .7 else int(2 ** rnd.uniform(0, 18))))
    for i, o in enumerate(out):
        o.setdefault("content", rnd.choice(["zero", "random", "text", "mixed", "runs"]))
        o["level"] = rnd.choice([0, 1, 1, 6, 9])
        o["strategy"] = rnd.choice([0, 0, 0, 1, 2, 3, 4])
        o["wbits"] = rnd.choice([15, 15, 12, 9])
        o["flush"] = rnd.choice([0, 0, 0, 1000, 37]) if o["len"] < 20000 else rnd.choice([0, 0, 5000])
        o["full"] = rnd.random() < .5
        o["trail"] = rnd.choice(["none", "one", "sha", "obj", "big", "same"])
        o["mem"] = rnd.choice(["bytes", "view", "mmap"])
    return out


def run(ctx):
    ctx.model_check("WindowReader", cfg(dict(WR, MaxOps=5 if ctx.thorough else 4), INV),
                    what="windowed decompression refines the cursor contract", name="repaired design")
    for flag, inv in [("FixSeek", "ReadExact"), ("FixOver", "ReadExact"), ("FixEmpty", "ReadExact"), ("FixScrub", "CLenExact"), ("FixTail", "CLenExact")]:
        ctx.model_check("WindowReader", cfg(dict(WR, **{flag: False}), [inv]), name="as found: not " + flag,
                        what="negative control", expect_violation=inv)
    rnd = random.Random("C03-%d" % ctx.seed)
    base = dict(MaxLen=0, Sizes=set(range(12)), MaxOps=2)
    ex = ctx.generate("ReadStream", cfg(base, ["TypeOK", "EmptyOnlyAtEnd", "PrintHist"], spec="SSpec"),
                      what="all operation histories of length 2")
    long = ctx.generate("ReadStream", cfg(dict(base, MaxLen=3, MaxOps=12), ["TypeOK", "PrintHist"], spec="SSpec"),
                        num=6000 if ctx.thorough else 1500, depth=14, what="random histories of length 12")
    specs = streams(rnd, 700 if ctx.thorough else 110)
    jobs = []
    for n, s in enumerate(specs):
        heavy = s["len"] > 300000
        hs = rnd.sample(ex, 12) if heavy else (ex if ctx.thorough or n % 3 == 0 else rnd.sample(ex, 40))
        hs = hs + rnd.sample(long, 5 if heavy else 25)
        # always read everything up in the end, then ask for the length
        fin = [[{"op": "read", "n": 0}, {"op": "clen"}], [{"op": "clen"}, {"op": "read", "n": 9}, {"op": "seek"}, {"op": "read", "n": 0}, {"op": "clen"}, {"op": "clen"}, {"op": "read", "n": 0}]]
        jobs.append({"n": n, "stream": s, "hists": [h + (fin[k % 3] if k % 3 < 2 else []) for k, h in enumerate(hs)]})
    rnd.shuffle(jobs)
    traces = ctx.drive("readstream", jobs, what="real streams stepped through the generated histories")
    ctx.validate("ReadStreamTrace", traces, contract="Stream", what="observed reads are behaviours of the cursor contract")
