"""Jobs for the ObjectStore contract (C01, C17, C18)"""
from lib.core import cfg

SIZES = [0, 1, 2, 4, 9, 10, 99, 100, 4095, 4096, 8177, 8178, 8179, 8180, 8181, 8182, 8183, 8184, 8185, 8186, 8187, 8191, 8192,
         8193, 9999, 10000, 65535, 65536, 100000, 262144]
BIG = [1000 * 4096 - 10, 1000 * 4096 - 1, 1000 * 4096, 1000 * 4096 + 1, 2000 * 4096, 2000 * 4096 + 17, 5000000]
TYPES = ["blob", "tree", "commit", "tag"]


def tla_objs(n, dup=True):
    """symbolic objects for the generator; the last one repeats the first"""
    o = ['[id |-> "%s", type |-> "blob", size |-> %d, c |-> "c%d"]' % ("i%d" % k, k, k) for k in range(1, n + (0 if dup else 1))]
    if dup:
        o.append(o[0])
    return "@<<" + ", ".join(o) + ">>"


def tla_dbs(dbs):
    return "@<<" + ", ".join('[kind |-> "%s", at |-> %d]' % (d["kind"], d["at"]) for d in dbs) + ">>"


def concrete_objs(rnd, n, big=False, strs=False):
    """n objects, the last one being the first again"""
    out = []
    for k in range(n - 1):
        ln = rnd.choice(SIZES) if rnd.random() < .75 else int(2 ** rnd.uniform(0, 17))
        out.append(dict(len=ln, content=rnd.choice(["zero", "random", "text", "mixed", "runs"]), type=rnd.choice(TYPES),
                        level=rnd.choice([0, 1, 6, 9]), str=strs and rnd.random() < .4))
    if big:
        out[0].update(len=rnd.choice(BIG), content=rnd.choice(["random", "text", "mixed", "zero"]))
    if n > 2 and rnd.random() < .6:
        # same bytes under another type: a different object
        out[1]["sameas"] = 1
        out[1]["type"] = [t for t in TYPES if t != out[0]["type"]][rnd.randrange(3)]
    out.append({"dup": 1})
    return out


# TLC configurations cannot hold records: the generator module is instantiated by a small wrapper
def gen(ctx, dbs, nobj, nst, ops, maxops, num=None, what="", salt=0, check=False):
    mod = "ObjectStoreGen"
    env = {}
    consts = {"Ops": set(ops), "MaxOps": maxops, "NSt": nst,
              "Objs": "<- Objs%d" % nobj, "Dbs": "<- " + dbs}
    if check:
        return ctx.model_check(mod, cfg(consts, ["Satisfiable"], ["Grows", "RedirectTouchesNothing"], view="StateView"),
                               what=what, name="%s/%d objects/%s ops" % (dbs, nobj, maxops))
    return ctx.generate(mod, cfg(consts, ["PrintHist"]), num=num, depth=maxops + 2, what=what, salt=salt)


DBS = {
    "DbsLoose": ([dict(kind="loose", at=1), dict(kind="git", at=1)], 1),
    "DbsLoose3": ([dict(kind="loose", at=1), dict(kind="loose", at=1), dict(kind="git", at=1)], 1),
    "DbsMem": ([dict(kind="mem", at=1), dict(kind="loose", at=2), dict(kind="mem", at=3)], 3),
    "DbsMem4": ([dict(kind="mem", at=1), dict(kind="loose", at=2), dict(kind="git", at=3), dict(kind="mem", at=4)], 4),
    "DbsRed": ([dict(kind="loose", at=1), dict(kind="git", at=1), dict(kind="mem", at=2)], 2),
}
