"""C25 damaged storage is reported, never delivered cut short"""
import random
from lib.core import cfg

B = dict(MaxC=3, MaxProd=3, MaxHdr=3, Decl={0, 1, 3}, Sizes={0, 1, 2}, MaxOps=4, MinWin=1, HdrWin=3, FixShort=True, FixHdr=True, FixMore=True, FixCopy=True, Gen=False)
INV = ["Allowed"]


def run(ctx):
    T = ctx.thorough
    ctx.model_check("Damaged", cfg(dict(B, MaxC=4 if T else 3, Decl={0, 1, 2, 3, 5} if T else {0, 1, 3}, MaxOps=5 if T else 4), INV, view="View"), name="damage", what="every small object, cut at every place or undecodable from there on, declaring more or less, read in every way")
    for f in ("FixShort", "FixHdr", "FixMore"):
        ctx.model_check("Damaged", cfg(dict(B, **{f: False}), INV, view="View"), expect_violation="Allowed", name="without " + f, what="negative control")
    g = ctx.generate("Damaged", cfg(dict(B, Sizes={0, 1, 2, 3, 4}, MaxOps=30, Gen=True), ["PrintCase"]), num=6000 if T else 900, depth=60, what="histories of 30 calls")
    rnd = random.Random("C25-%d" % ctx.seed)
    hists = []
    for h in g:
        hists.append([["ids", 0] if x["w"] == "info" and rnd.random() < .1 else [x["w"], x["x"]] for x in h if x["w"] != "end"])
    pos = ["any", "any", "early", "late", "page"]
    ld = ["cut"] * 5 + ["flip"] * 3 + ["zeros", "trail", "plain", "junk", "more", "more", "less", "neg", "plus", "hex", "under", "blank", "none2", "float", "huge", "nonul", "nospace", "type", "long"]
    pd = ["cut"] * 3 + ["flip"] * 4 + ["zeros", "gone", "gone", "more", "more", "less", "huge", "type", "lost", "lost"]
    jobs = []
    for n, h in enumerate(hists):
        store = ("loose", "packed")[n % 2]
        dam = [(rnd.choice(ld if store == "loose" else pd), rnd.choice(pos)) if rnd.random() < (.7 if store == "loose" else .3) else ("none", 0) for _ in range(rnd.randrange(1, 6))]
        jobs.append(dict(store=store, dam=dam, hist=h))
    # cut at every one of the first and the last places
    for store in ("loose", "packed"):
        for k in list(range(0, 40)) + list(range(-40, 0)):
            h = [["info", 0], ["open", 0], ["read", 2], ["read", 2], ["read", 2], ["read", 3], ["read", 0], ["open", 0], ["read", 0], ["copy", 1], ["copy", 1], ["copy", 1], ["copy", 1]]
            jobs.append(dict(store=store, dam=[("cut", k)], hist=h))
            jobs.append(dict(store=store, dam=[("flip", k)], hist=h))
            if store == "packed":
                jobs.append(dict(store=store, dam=[("none", 0), ("none", 0), (rnd.choice(["cut", "gone", "flip"]), k)], hist=h + h))
    for n, j in enumerate(jobs):
        j["n"] = n
    rnd.shuffle(jobs)
    traces = ctx.drive("damaged", jobs, timeout=850, what="reading damaged objects")
    ctx.validate("DamagedTrace", traces, contract="Damaged", what="as declared and stored, or an error")
