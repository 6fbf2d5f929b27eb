"""C09 abbreviated ids resolve to the unique match or fail explicitly"""
import random
from lib.core import cfg

B = dict(D=2, L=3, MaxIds=8, FixAmbiguous=True, Places={1})


def run(ctx):
    rnd = random.Random("C09-%d" % ctx.seed)
    ctx.model_check("PackIndex", cfg(dict(B, L=4, MaxIds=16), ["PartialExact"]), what="abbreviations in one index, every set of ids over 2^4", name="D2L4")
    ctx.model_check("PackIndex", cfg(dict(B, D=3, MaxIds=5 if ctx.thorough else 4), ["PartialExact"]), what="every set of ids over 3^3", name="D3L3")
    ctx.model_check("PackIndex", cfg(dict(B, FixAmbiguous=False), ["PartialExact"]), expect_violation="PartialExact", what="negative control", name="as found: ambiguity ignored")
    P = {1, 2, 3, 4, 5}
    a = ctx.generate("PackIndex", cfg(dict(B, MaxIds=2, Places=P), ["PrintCase"]), what="up to two ids, every placement in 5 storages")
    b = ctx.generate("PackIndex", cfg(dict(B, D=3, MaxIds=6, Places={1, 2, 3, 4, 5}), ["PrintCase"]), num=3000, depth=9, salt=1, what="random sets of up to 6 ids")
    c = ctx.generate("PackIndex", cfg(dict(B, MaxIds=6, Places={2}), ["PrintCase"]), what="every set of up to 6 ids in one pack")
    rnd.shuffle(a), rnd.shuffle(b), rnd.shuffle(c)
    k = 6 if ctx.thorough else 1
    jobs = [dict(ids=x["ids"], D=2, L=3) for x in a[:900 * k] + c[:250 * k]] + [dict(ids=x["ids"], D=3, L=3) for x in b[:900 * k]]
    for n, j in enumerate(jobs):
        j.update(n=n, kind="abbrev", noise=rnd.choice([0, 0, 3, 40]))
    traces = ctx.drive("packindex", jobs, what="abbreviations asked of LooseObjectDB, PackedDB, GitDB and ReferenceDB")
    ctx.validate("PackIndexTrace", traces, what="the unique match, or the right error")
