"""C10 every pack entry is readable by id and by walking the pack"""
import random
from lib.core import cfg

B = dict(MaxN=3, Damage=False, FixOfs=True, FixCycle=True)
BIG = [4096000 - 1, 4096000, 4096001, 8192000]


def run(ctx):
    rnd = random.Random("C10-%d" % ctx.seed)
    ctx.model_check("PackRead", cfg(dict(B, MaxN=5 if ctx.thorough else 4), ["CollectRight"]), what="collecting a delta chain is right for every pack of up to 4 (thorough: 5) entries", name="MaxN")
    for f in ("FixOfs", "FixCycle"):
        ctx.model_check("PackRead", cfg(dict(B, **{f: False}), ["CollectRight"]), expect_violation="CollectRight", what="negative control", name="as found: not " + f)
    a = ctx.generate("PackRead", cfg(B, ["PrintCase"]), what="every pack of up to 3 entries")
    b = ctx.generate("PackRead", cfg(dict(B, MaxN=12), ["PrintCase"]), num=3000, depth=15, salt=1, what="random packs of up to 12 entries")
    rnd.shuffle(b)
    k = 5 if ctx.thorough else 1
    jobs = [dict(es=c["es"], dam=[]) for c in a * (2 * k) + b[:900 * k]]
    for z in BIG * k:
        jobs.append(dict(es=[dict(kind="whole", base=0), dict(kind="ofs", base=1), dict(kind="ref", base=1)], dam=[], big=z))
    jobs += [dict(es=c["es"], dam=[], alien=True) for c in b[-40:]]
    # a long chain
    for m in (50, 300):
        jobs.append(dict(es=[dict(kind="whole", base=0)] + [dict(kind=rnd.choice(["ofs", "ref"]), base=j) for j in range(1, m)], dam=[]))
    for n, j in enumerate(jobs):
        j.update(n=n, version=rnd.choice([1, 2, 2]), what="read")
    rnd.shuffle(jobs)
    traces = ctx.drive("packread", jobs, what="packs read by id, by position and by walking", as_limit_gb=4)
    ctx.validate("PackReadTrace", traces, what="what is read is what the pack holds")
