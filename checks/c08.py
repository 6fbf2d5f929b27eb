"""C08 pack index lookups are exact"""
import random
from lib.core import cfg

B = dict(D=3, L=3, MaxIds=4, FixAmbiguous=True, Places={1})


def run(ctx):
    rnd = random.Random("C08-%d" % ctx.seed)
    ctx.model_check("PackIndex", cfg(dict(B, D=2, L=4, MaxIds=16), ["LookupExact"]), what="fan-out and bisection are exact for every set of ids over 2^4", name="D2L4")
    ctx.model_check("PackIndex", cfg(dict(B, MaxIds=5 if ctx.thorough else 4), ["LookupExact"]), what="every set of ids over 3^3", name="D3L3")
    a = ctx.generate("PackIndex", cfg(dict(B, MaxIds=3), ["PrintCase"]), what="sets of up to 3 ids over 3^3")
    b = ctx.generate("PackIndex", cfg(dict(B, MaxIds=12), ["PrintCase"]), num=3000, depth=14, salt=1, what="random sets of up to 12 ids")
    rnd.shuffle(a), rnd.shuffle(b)
    k = 5 if ctx.thorough else 1
    jobs = [dict(kind="index", ids=c["ids"], D=3, L=3, version=rnd.choice([1, 2, 2])) for c in a[:1200 * k] + b[:500 * k]]
    jobs += [dict(kind="index", ids=[], D=3, L=3, version=v) for v in (1, 2)]
    jobs += [dict(kind="index", count=rnd.choice([100, 256, 257, 1000, 5000 if ctx.thorough else 2000]), version=rnd.choice([1, 2, 2])) for _ in range(16 * k)]
    jobs += [dict(kind="index", ids=c["ids"], D=3, L=3, version=2, alien=True) for c in b[-60:]]
    for n, j in enumerate(jobs):
        j["n"] = n
    traces = ctx.drive("packindex", jobs, what="index files of both versions read by PackIndexFile")
    ctx.validate("PackIndexTrace", traces, what="answers are what the file records")
