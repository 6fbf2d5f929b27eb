"""C07: collections of objects written by PackEntity.write_pack and IndexWriter, read back by an independent reader."""
import hashlib
import os
import shutil
import struct
import zlib
from io import BytesIO
from drv import *
import packlib as pl
from gitdb.base import OStream, IStream
from gitdb.db import LooseObjectDB, MemoryDB, PackedDB
from gitdb.pack import PackEntity, IndexWriter
from gitdb.util import mman

limit(60)
NAMES = {1: "commit", 2: "tree", 3: "blob", 4: "tag"}


def parse_pack(raw, names):
    p = {"magic": raw[:4] == b"PACK", "version": -1, "count": -1, "entries": [], "rest": 0, "trailer": False}
    if len(raw) < 32:
        return p
    p["version"], p["count"] = struct.unpack(">LL", raw[4:12])
    p["version"] = min(p["version"], 1 << 30)
    p["count"] = min(p["count"], 1 << 30)
    p["trailer"] = hashlib.sha1(raw[:-20]).digest() == raw[-20:]
    i = 12
    end = len(raw) - 20
    while i < end:
        s = i
        c = raw[i]
        i += 1
        t, size, sh = (c >> 4) & 7, c & 15, 4
        while c & 0x80 and i < end:
            c = raw[i]
            i += 1
            size |= (c & 0x7f) << sh
            sh += 7
        d = zlib.decompressobj()
        try:
            data = d.decompress(raw[i:end])
        except zlib.error:
            break
        if not d.eof or t not in NAMES:
            break
        i = end - len(d.unused_data)
        p["entries"].append({"type": NAMES[t], "size": min(size, 1 << 30), "c": names.get(data, "other"), "off": str(s),
                             "crc": str(zlib.crc32(raw[s:i]) & 0xffffffff)})
        if i - s < 1:
            break
    p["rest"] = end - i if i <= end else -1
    return p


def parse_index(raw, psha, code):
    x = {"magic": raw[:4] == b"\xfftOc", "version": -1, "fan": [0] * 256, "rows": [], "rest": 0, "packsha": False, "trailer": False}
    if len(raw) < 1072:
        return x
    x["version"] = min(struct.unpack(">L", raw[4:8])[0], 1 << 30)
    fan = struct.unpack(">256L", raw[8:1032])
    x["fan"] = [min(f, 1 << 30) for f in fan]
    n = fan[255]
    if len(raw) < 1072 + 28 * n:
        x["rest"] = -1
        return x
    o = 1032
    ids = [raw[o + 20 * k:o + 20 * k + 20] for k in range(n)]
    o += 20 * n
    crc = struct.unpack(">%dL" % n, raw[o:o + 4 * n])
    o += 4 * n
    off = struct.unpack(">%dL" % n, raw[o:o + 4 * n])
    o += 4 * n
    nb = (len(raw) - 40 - o) // 8
    big = struct.unpack(">%dQ" % nb, raw[o:o + 8 * nb])
    used = set()
    for k in range(n):
        v = off[k]
        if v & 0x80000000:
            j = v & 0x7fffffff
            used.add(j)
            v = big[j] if j < nb else "?"
        x["rows"].append({"u": code.get(ids[k], 1 << 30), "off": str(v), "crc": str(crc[k])})
    x["rest"] = len(raw) - 40 - o - 8 * len(used)
    x["packsha"] = raw[-40:-20] == psha
    x["trailer"] = hashlib.sha1(raw[:-20]).digest() == raw[-20:]
    return x


class Flawed:
    def __init__(self, data):
        self.b = BytesIO(data)

    def read(self, n=-1):
        return self.b.read(n)


def write_job(job):
    r = rng("write", job["n"])
    root = place("w%d" % job["n"])
    os.makedirs(os.path.join(root, "pack"))
    made = {}
    for o in job["objs"]:
        if o["u"] not in made:
            data = pl.content(r, job["sizes"][str(o["u"])], r.choice(["zero", "random", "text", "mixed", "runs"]))
            made[o["u"]] = (r.choice(list(NAMES.values())), data)
    names = {}
    objs, supply = [], []
    shas = {}
    for u, (t, data) in made.items():
        names.setdefault(data, "c%d" % u)
        shas[u] = pl.oid(t.encode(), data)
    order = {s: k for k, s in enumerate(sorted(set(shas.values())))}
    loose = LooseObjectDB(root)
    mem = MemoryDB()
    packed = None
    for u, (t, data) in made.items():
        loose.store(IStream(t.encode(), len(data), BytesIO(data)))
        mem.store(IStream(t.encode(), len(data), BytesIO(data)))
    if made:
        pl.write_pack(os.path.join(root, "pack"), [pl.Entry("whole", d, shas[u], typ=t.encode()) for u, (t, d) in made.items()])
        packed = PackedDB(os.path.join(root, "pack"))
    seen = set()
    for o in job["objs"]:
        t, data = made[o["u"]]
        sha = shas[o["u"]]
        objs.append({"u": order[sha], "fb": sha[0], "type": t, "size": len(data), "c": names[data], "flaw": o["flaw"], "off": "", "crc": ""})
        if o["flaw"] == "short":
            d = data[:r.randrange(len(data))] if r.random() < .6 and data else data[:-1]
            if not data:
                objs[-1]["flaw"] = ""
            src = OStream(sha, t.encode(), len(data), Flawed(d))
        elif o["flaw"] == "long":
            src = OStream(sha, t.encode(), len(data), Flawed(data + b"x" * r.choice([1, 20, 5000, 4096000])))
        else:
            how = r.choice(["loose", "packed", "raw", "mem", "raw"])
            # a memory database hands out one stream per object
            if how == "mem" and (sha in seen):
                how = "raw"
            if how == "mem":
                seen.add(sha)
            src = OStream(sha, t.encode(), len(data), BytesIO(data) if r.random() < .6 else Trickle(r, data)) if how == "raw" else {"loose": loose, "packed": packed, "mem": mem}[how].stream(sha)
        supply.append(src)
    cfg = {"objs": objs, "count": job["count"], "index": job["index"]}
    ev = []
    current(cfg, ev)
    it = r.choice(["list", "tuple", "gen", "iter"])
    arg = supply if it == "list" else tuple(supply) if it == "tuple" else (x for x in supply) if it == "gen" else iter(supply)
    pw, iw = [], []
    kw = {}
    if job["count"]:
        kw["object_count"] = job["count"]
    if r.random() < .6:
        kw["zlib_compression"] = r.choice([0, 1, 6, 9, -1])
    rets = r.random() < .5

    def w(q):
        def f(d):
            q.append(bytes(d))
            return len(d) if rets else None
        return f
    out, v = call(lambda: PackEntity.write_pack(arg, w(pw), w(iw) if job["index"] else None, **kw))
    e = {"op": "write", "out": out}
    if out == "ok":
        praw, iraw = b"".join(pw), b"".join(iw)
        e["pack"] = parse_pack(praw, names)
        if job["index"]:
            e["idx"] = parse_index(iraw, praw[-20:], order)
        e["retpack"] = isinstance(v, tuple) and len(v) == 2 and v[0] == praw[-20:]
        e["retindex"] = isinstance(v, tuple) and len(v) == 2 and v[1] == (iraw[-20:] if job["index"] else None)
    ev.append(e)
    arg = supply = src = packed = loose = None
    emit(cfg, ev)
    shutil.rmtree(root, ignore_errors=True)
    if job["n"] % 40 == 0:
        call(mman.collect)


OFFS = [12, 13, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, (1 << 40) + 5, (1 << 63) - 1]


def rows_job(job):
    r = rng("rows", job["n"])
    n = job["rows"]
    ids = {r.randbytes(20) for _ in range(n)}
    if r.random() < .3:
        ids |= {bytes([b]) + r.randbytes(19) for b in (0, 255, 255)}
    if r.random() < .3 and ids:
        b = bytearray(next(iter(ids)))
        b[19] ^= 1
        ids.add(bytes(b))
    ids = list(ids)
    r.shuffle(ids)
    code = {s: k for k, s in enumerate(sorted(ids))}
    style = r.choice(["small", "mixed", "big"])
    x = IndexWriter()
    objs = []
    for s in ids:
        o = r.choice(OFFS) if style == "mixed" else 12 + r.randrange(1 << 31) if style == "small" else 0x80000000 + r.randrange(1 << 34)
        if style == "small":
            o = min(o, 0x7fffffff)
        c = r.choice([0, 1, 0xffffffff, 0x80000000, r.randrange(1 << 32)])
        objs.append({"u": code[s], "fb": s[0], "type": "", "size": 0, "c": "", "flaw": "", "off": str(o), "crc": str(c)})
        x.append(s, c, o)
    psha = r.randbytes(20)
    cfg = {"objs": objs, "count": 0, "index": True}
    ev = []
    current(cfg, ev)
    q = []
    out, v = call(x.write, psha, lambda d: q.append(bytes(d)))
    raw = b"".join(q)
    e = {"op": "rows", "out": out}
    if out == "ok":
        e["idx"] = parse_index(raw, psha, code)
        e["retindex"] = v == raw[-20:]
    ev.append(e)
    emit(cfg, ev)


for n, job in jobs():
    (rows_job if "rows" in job else write_job)(job)
