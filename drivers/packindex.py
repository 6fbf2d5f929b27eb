"""C08 / C09: index files laid out as the PackIndex specification says, asked by gitdb"""
import bisect
import hashlib
import os
import shutil
from drv import *
import packlib as pl
from gitdb.db import LooseObjectDB, PackedDB, GitDB, ReferenceDB
from gitdb.pack import PackIndexFile
from gitdb.util import mman

limit(20)
OFFS = [12, 13, 1000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x100000001,
        (1 << 40) + 5, (1 << 63) - 1, 0xfffffffe, 0xc0000000]


def layout(r, D, L, codes):
    """order preserving map from numbers of L digits to 20 byte ids: every digit becomes a run of bytes (the first: one)"""
    firsts = sorted(r.sample(range(1, 255), D - 2)) if D > 2 else []
    style = r.random()
    if style < .5:
        firsts = [0] + firsts + [255]
    else:
        firsts = sorted(r.sample(range(256), D))
    pos = sorted([0] + r.sample(range(1, 20), L - 1))
    fill = r.choice([b"\0", b"\xff", None, b"\x80"])
    digs = []
    for k in range(1, L):
        digs.append(sorted(r.sample(range(256), D)) if r.random() < .6 else sorted([0, 255] + r.sample(range(1, 255), D - 2)))

    def conc(u):
        ds = []
        for _ in range(L):
            ds.append(u % D)
            u //= D
        ds.reverse()
        b = bytearray(fill * 20 if fill else fixed)
        b[0] = firsts[ds[0]]
        for k in range(1, L):
            b[pos[k]] = digs[k - 1][ds[k]]
        return bytes(b)
    fixed = r.randbytes(20)
    return {u: conc(u) for u in codes}


def index_job(job):
    r = rng("index", job["n"])
    if "ids" in job:
        D, L = job["D"], job["L"]
        m = layout(r, D, L, range(D ** L))
        ids = [m[x["u"]] for x in job["ids"]]
        absent = [m[u] for u in m if m[u] not in set(ids)]
    else:
        # a big index: clustered ids
        ids = set()
        while len(ids) < job["count"]:
            c = r.randbytes(r.choice([1, 2, 2, 19]))
            for _ in range(r.choice([1, 3, 30])):
                ids.add((c + r.randbytes(20))[:20])
        ids = sorted(ids)
        absent = [r.randbytes(20) for _ in range(50)]
    ids = sorted(set(ids))
    near = []
    for s in r.sample(ids, min(len(ids), 12)):
        v = int.from_bytes(s, "big")
        near += [(v + d).to_bytes(20, "big") for d in (-1, 1) if 0 <= v + d < 1 << 160]
    near += [b"\0" * 20, b"\xff" * 20]
    known = set(ids)
    ask = [s for s in absent[:60] + near if s not in known]
    allids = sorted(known | set(ask))
    code = {s: k for k, s in enumerate(allids)}
    ver = job["version"]
    style = r.choice(["small", "mixed", "mixed", "big", "force64"])
    offs = []
    for k in range(len(ids)):
        o = r.choice(OFFS) if style in ("mixed", "big") else 12 + 100 * k
        if style == "big":
            o = r.choice([0x7fffffff, 0x80000000]) + r.randrange(1 << 33)
        if ver == 1:
            o &= 0xffffffff
        offs.append(o)
    crcs = [r.choice([0, 1, 0x80000000, 0xffffffff, r.randrange(1 << 32)]) for _ in ids]
    psha = r.randbytes(20)
    raw = pl.build_index(list(zip(ids, crcs, offs)), psha, ver, force64=True if style == "force64" else False)
    if job.get("alien"):
        # a version this library does not know: everything else about the file is in order
        raw = bytearray(raw)
        raw[4:8] = r.choice([0, 1, 3, 4, 0x200, 0xffffffff]).to_bytes(4, "big")
        raw[-20:] = hashlib.sha1(raw[:-20]).digest()
        raw = bytes(raw)
    d = os.path.join(SCRATCH, "i%d" % job["n"])
    os.mkdir(d)
    path = os.path.join(d, "pack-x.idx")
    with open(path, "wb") as f:
        f.write(raw)
    rows = [{"u": code[s], "off": str(o), "crc": str(c) if ver == 2 else "0"} for s, c, o in zip(ids, crcs, offs)]
    cfg = {"rows": rows, "version": ver, "alien": bool(job.get("alien"))}
    ev = []
    current(cfg, ev)
    x = PackIndexFile(path)

    def size():
        out, v = call(x.size)
        ev.append({"op": "size", "out": out, "v": v if out == "ok" else -1})

    def lookups():
        q = r.sample(ids, min(len(ids), 40)) + ask
        r.shuffle(q)
        for s in q:
            out, v = call(x.sha_to_index, s)
            ev.append({"op": "lookup", "u": code[s], "out": out, "v": (0 if v is None else v + 1 if isinstance(v, int) else -1) if out == "ok" else 0})

    def rows_():
        ways = ["entry", "sha", "offset", "crc"]
        for i in (range(len(ids)) if len(ids) < 12 else r.sample(range(len(ids)), 10) + [0, len(ids) - 1]):
            r.shuffle(ways)
            for w in ways:
                e = {"op": "row", "way": w, "i": i + 1, "u": -1, "off": "", "crc": ""}
                out, v = call(lambda: getattr(x, w)(i))
                e["out"] = out
                if out == "ok":
                    if w == "entry":
                        e.update(off=str(v[0]), u=code.get(bytes(v[1]), 1 << 30), crc=str(v[2]))
                    elif w == "sha":
                        e["u"] = code.get(bytes(v), 1 << 30)
                    elif w == "offset":
                        e["off"] = str(v)
                    else:
                        e["crc"] = str(v)
                ev.append(e)

    def offsets():
        out, v = call(lambda: [str(int(o)) for o in x.offsets()])
        ev.append({"op": "offsets", "out": out, "v": v if out == "ok" else []})

    def version():
        out, v = call(lambda: x.version())
        ev.append({"op": "version", "out": out, "v": v if out == "ok" else -1})

    def sums():
        out, v = call(lambda: (bytes(x.packfile_checksum()), bytes(x.indexfile_checksum())))
        ev.append({"op": "sums", "out": out, "pack": out == "ok" and v[0] == psha, "index": out == "ok" and v[1] == raw[-20:]})
    fs = [size, lookups, rows_, offsets, version, sums]
    r.shuffle(fs)
    for f in fs + [r.choice(fs)]:
        f()
    x = None
    emit(cfg, ev, job.get("label", ""))
    shutil.rmtree(d, ignore_errors=True)
    if job["n"] % 100 == 0:
        call(mman.collect)


def nib(s):
    return [int(c, 16) for c in s]


def abbrev_job(job):
    """places: 1 loose, 2 pack, 3 pack, 4 loose of an alternate, 5 pack of an alternate"""
    r = rng("abbrev", job["n"])
    D, L = job["D"], job["L"]
    # digits become nibbles at chosen positions of a 40 digit id
    pos = sorted(r.sample(range(0, r.choice([6, 8, 12, 40])), L))
    if r.random() < .3:
        pos = list(range(39 - L, 39)) if r.random() < .5 else list(range(L))
    vals = [sorted(r.sample(range(16), D)) if r.random() < .6 else sorted([0, 15] + r.sample(range(1, 15), D - 2)) for _ in range(L)]
    fill = r.choice(["0", "f", "a", None])
    base = [int(fill, 16)] * 40 if fill else [r.randrange(16) for _ in range(40)]

    def conc(u):
        ds = []
        for _ in range(L):
            ds.append(u % D)
            u //= D
        ds.reverse()
        b = list(base)
        for k in range(L):
            b[pos[k]] = vals[k][ds[k]]
        return "".join("%x" % v for v in b)
    ids = [conc(x["u"]) for x in job["ids"]]
    at = [x["at"] for x in job["ids"]]
    extra = []
    for _ in range(job.get("noise", 0)):
        extra.append("".join(r.choice("0123456789abcdef") for _ in range(40)))
    for s in extra:
        ids.append(s)
        at.append([r.choice([1, 2, 3, 4, 5])])
    root = place("a%d" % job["n"])
    alt = place("a%d.alt" % job["n"])
    for x in (root, alt):
        os.makedirs(os.path.join(x, "pack"))
        os.makedirs(os.path.join(x, "info"))

    def loose(rt, h):
        os.makedirs(os.path.join(rt, h[:2]), exist_ok=True)
        open(os.path.join(rt, h[:2], h[2:]), "wb").close()
    for p, rt in ((1, root), (4, alt)):
        for s, a in zip(ids, at):
            if p in a:
                loose(rt, s)
    for p, rt in ((2, root), (3, root), (5, alt)):
        q = [bytes.fromhex(s) for s, a in zip(ids, at) if p in a]
        if q or r.random() < .1:
            ents = [pl.Entry("whole", b"%d" % k, s, typ=b"blob") for k, s in enumerate(q)]
            if q:
                pl.write_pack(os.path.join(rt, "pack"), ents, version=r.choice([1, 2]), name=r.randbytes(20).hex())
    with open(os.path.join(root, "info", "alternates"), "w") as f:
        f.write(alt + "\n")
    handles = [("loose", LooseObjectDB, root, [1]), ("packed", PackedDB, os.path.join(root, "pack"), [2, 3]),
               ("git", GitDB, root, [1, 2, 3, 4, 5]), ("ref", ReferenceDB, os.path.join(root, "info", "alternates"), [4, 5])]
    cfg = {"alien": False, "ids": [nib(s) for s in ids], "sees": [[k + 1 for k, a in enumerate(at) if set(a) & set(h[3])] for h in handles]}
    ev = []
    current(cfg, ev)
    dbs = [h[1](h[2]) for h in handles]
    qs, must = set(), set()
    for s in ids:
        for n in [4, 5, 40, 39] + [p + d for p in pos for d in (0, 1, 2)] + [r.randrange(4, 41)]:
            if 4 <= n <= 40:
                qs.add(s[:n])
    for s in list(qs):
        # abbreviations of nothing, close to existing ones
        if r.random() < .4 or len(ids) == 0:
            k = r.choice([0, len(s) - 1, r.randrange(len(s))])
            qs.add(s[:k] + "%x" % ((int(s[k], 16) + r.choice([1, 15])) % 16) + s[k + 1:])
    qs |= {"0000", "ffff", "00000", "fffff", "f" * 40, "0" * 40, "".join("%x" % v for v in base)[:r.randrange(4, 41)]}
    for x in os.listdir(os.path.join(root, "pack")) + [None]:
        if x and x.endswith(".idx"):
            # what follows the ids in an index file is not an id
            with open(os.path.join(root, "pack", x), "rb") as f:
                raw = f.read()
            v2 = raw[:4] == b"\377tOc"
            n = int.from_bytes(raw[v2 * 8 + 1020:v2 * 8 + 1024], "big")
            after = (raw[1032 + 20 * n:] if v2 else raw[1024 + 24 * n + 4:])[:20].hex()
            if len(after) == 40:
                qs |= {after, after[:4], after[:5], after[:8]}
                if r.random() < .5:
                    must |= {after[:4], after[:7]}
    qs = sorted(qs - must)
    r.shuffle(qs)
    for q in sorted(must) + qs[:60]:
        for d in (range(4) if r.random() < .3 else [r.choice([0, 1, 2, 2, 3])]):
            h = q.upper() if r.random() < .4 else q
            if r.random() < .2:
                h = "".join(r.choice([c.upper(), c]) for c in q)
            db = dbs[d]
            if handles[d][0] == "packed":
                b = bytes.fromhex(h + ("0" if len(h) % 2 else ""))
                out, v = call(db.partial_to_complete_sha, b, len(h))
            else:
                out, v = call(db.partial_to_complete_sha_hex, h if r.random() < .6 else h.encode())
            i = 0
            if out == "ok":
                v = bytes(v).hex() if isinstance(v, (bytes, bytearray, memoryview)) else "?"
                i = ids.index(v) + 1 if v in ids else -1
            ev.append({"op": "abbrev", "d": d + 1, "prefix": nib(q), "out": out, "id": i})
    dbs = db = None
    emit(cfg, ev, job.get("label", ""))
    shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(alt, ignore_errors=True)
    if job["n"] % 50 == 0:
        call(mman.collect)


for n, job in jobs():
    (index_job if job["kind"] == "index" else abbrev_job)(job)
