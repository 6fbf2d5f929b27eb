"""C11 pack verification accepts intact entries and never damaged ones"""
import random
from lib.core import cfg

B = dict(MaxN=3, Damage=True, FixOfs=True, FixCycle=True)


def run(ctx):
    rnd = random.Random("C11-%d" % ctx.seed)
    ctx.model_check("PackRead", cfg(B, ["CollectRight"]), what="packs with damage", name="MaxN=3")
    a = ctx.generate("PackRead", cfg(dict(B, MaxN=2), ["PrintCase"]), what="every pack of up to 2 entries with up to 2 damages")
    b = ctx.generate("PackRead", cfg(dict(B, MaxN=8), ["PrintCase"]), num=4000, depth=12, salt=1, what="random packs with damage")
    c = ctx.generate("PackRead", cfg(dict(B, MaxN=8, Damage=False), ["PrintCase"]), num=1500, depth=12, salt=2, what="random intact packs")
    rnd.shuffle(b), rnd.shuffle(c)
    k = 5 if ctx.thorough else 1
    jobs = [dict(es=x["es"], dam=x["dam"]) for x in a * k + b[:1300 * k] + c[:300 * k]]
    # every kind of damage on simple packs, often
    for h in ("flip", "flip", "flip", "swap", "swapcrc", "crc"):
        for kd in ("whole", "ofs", "ref"):
            for _ in range(12 * k):
                es = [dict(kind="whole", base=0), dict(kind=kd, base=0 if kd == "whole" else 1), dict(kind="ref", base=2), dict(kind="whole", base=0)]
                jobs.append(dict(es=es, dam=[dict(k=rnd.choice([1, 2, 4]), how=h)]))
    for z in (4096000, 4096001):
        jobs.append(dict(es=[dict(kind="whole", base=0), dict(kind="whole", base=0)], dam=[dict(k=1, how=rnd.choice(["flip", "swap"]))], big=z))
        jobs.append(dict(es=[dict(kind="whole", base=0)], dam=[], big=z))
    # entries which take several of the pieces the checksum is computed over
    for z in [4096001 - 7, 4095000, 4200000, 8192000, 9000001] * (1 + k):
        for h in (None, "flip", "crc", "swap"):
            jobs.append(dict(es=[dict(kind="whole", base=0), dict(kind="whole", base=0)], dam=[dict(k=1, how=h)] if h else [], big=z, content="random"))
    for n, j in enumerate(jobs):
        j.update(n=n, version=rnd.choice([1, 2, 2, 2]), what="verify")
    rnd.shuffle(jobs)
    traces = ctx.drive("packread", jobs, what="intact and damaged entries verified by gitdb", as_limit_gb=4)
    ctx.validate("PackReadTrace", traces, what="verdicts of the verification")
