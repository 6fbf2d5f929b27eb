"""Cases of the Delta specification"""
import random
from lib.core import cfg

B = dict(MaxBase=3, MaxChain=2, MaxCmds=2, MaxLen=2, Flaw=False, DropRigid=False)
INV = ["FlawMeansBad", "SizesAdd"]
MINV = INV + ["MergeMeansChain", "MergeTiles"]


def exhaustive(ctx, what, **kw):
    return ctx.generate("Delta", cfg(dict(B, **kw), INV + ["PrintCase"]), what=what)


def randomly(ctx, what, num, depth, salt, **kw):
    return ctx.generate("Delta", cfg(dict(B, **kw), INV + ["PrintCase"]), num=num, depth=depth, salt=salt, what=what)


def units(case):
    """length of the longest content in a case"""
    return max([len(case["base"])] + [d["dst"] for d in case["chain"]])


def jobs(rnd, cases, via, flawed, heavy=40):
    out = []
    nheavy = 0
    for k, c in enumerate(cases):
        u = units(c)
        p = rnd.choice(["one", "small", "mid", "mid", "k64"])
        if u > 40 and p == "k64":
            p = "mid"
        if u <= 8 and len(c["chain"]) <= 3 and nheavy < heavy and rnd.random() < .1:
            p = "m16"
            nheavy += 1
        v = list(via)
        if p not in ("m16",) and "pack" in v and "mem" in v and rnd.random() < .5:
            v.remove(rnd.choice(["pack", "mem"]))
        out.append(dict(case=c, profile=p, via=v, flawed=flawed))
    return out


def huge(rnd, cases, k):
    """cases which never copy the first base unit: it may be gigantic"""
    out = []
    for c in cases:
        if not c["base"] or len(c["chain"]) != 1:
            continue
        cp = [x for x in c["chain"][0]["cmds"] if x["k"] == "c"]
        if cp and all(x["off"] >= 1 for x in cp):
            out.append(c)
    rnd.shuffle(out)
    return [dict(case=c, profile="huge", via=["apply"], flawed=False,
                 hugefirst=rnd.choice([0x1000000, 0x7fffffff, 0x80000000, 0xf0000000, 0xfdffffff])) for c in out[:k]]


def number(jobs, rnd):
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    return jobs
