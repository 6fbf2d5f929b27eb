"""C23 types, sizes and ids survive their encodings"""
import random
from lib.core import cfg

B = dict(MaxBits=9, Pad=1, Mutant="", Gen=False)


def run(ctx):
    T = ctx.thorough
    ctx.model_check("Encoding", cfg(dict(B, MaxBits=13 if T else 9, Pad=2 if T else 1), ["Right", "Inverse", "Ended"]), name="small sizes",
                    what="every size of up to %d bits, what follows it, and padding" % (13 if T else 9))
    for m in ("shift", "mask", "end"):
        ctx.model_check("Encoding", cfg(dict(B, MaxBits=8, Mutant=m), ["Right"]), expect_violation="Right", name=m, what="negative control")
    rnd = random.Random("C23-%d" % ctx.seed)
    g = ctx.generate("Encoding", cfg(dict(B, Pad=2), ["PrintCase"]), what="every size of up to 9 bits")
    jobs = [dict(cases=g[k:k + 40]) for k in range(0, len(g), 40)]
    wide = []
    for _ in range(40000 if T else 8000):
        t, n = rnd.randrange(1, 8), rnd.randrange(1, 80)
        bits = [rnd.randrange(2) if rnd.random() < .8 else rnd.choice([0, 1]) for _ in range(n - 1)] + [1]
        what = rnd.choice(["pack", "msb"])
        wide.append(dict(what=what, t=t, bits=bits, data=written(t if what == "pack" else 0, bits, rnd)))
    jobs += [dict(cases=wide[k:k + 40]) for k in range(0, len(wide), 40)]
    sizes = list(range(0, 3000)) + [(1 << k) + d for k in range(4, 90) for d in (-1, 0, 1)] + [rnd.getrandbits(rnd.randrange(1, 80)) for _ in range(20000 if T else 2500)]
    sizes += [10 ** k + d for k in range(1, 26) for d in (-1, 0)]
    jobs += [dict(sizes=[str(x) for x in sizes[k:k + 40]]) for k in range(0, len(sizes), 40)]
    jobs += [dict(ids=20) for _ in range(200 if T else 40)]
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("encoding", jobs, what="headers and ids written and read")
    ctx.validate("EncodingTrace", traces, what="each header is the one specified, byte by byte")


def written(t, bits, rnd):
    """some encoding, longer than it has to be now and then, and something behind; what it means is the specification's business"""
    b = list(bits)
    out = []
    if t:
        k = b[:4]
        b = b[4:]
        out.append((t << 4) + sum(x << i for i, x in enumerate(k)) + (128 if b else 0))
        if not b:
            return out + rnd.choice([[], [0], [255, 1]])
    while True:
        k = b[:7]
        b = b[7:]
        out.append(sum(x << i for i, x in enumerate(k)) + (128 if b else 0))
        if not b:
            break
    if rnd.random() < .2:
        out[-1] += 128
        out += [128] * rnd.randrange(3) + [0]
    return out + rnd.choice([[], [0], [255, 1], [rnd.randrange(256) for _ in range(30)]])
