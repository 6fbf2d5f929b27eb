"""C10 / C11: packs laid out by the PackRead specification, read, walked and verified by gitdb."""
import hashlib
import os
import shutil
import zlib
from drv import *
import packlib as pl
from gitdb.db import PackedDB, GitDB
from gitdb.pack import PackEntity, PackFile
from gitdb.util import mman

limit(20)
TYPES = [b"commit", b"tree", b"blob", b"tag"]
SIZES = [0, 1, 2, 15, 16, 17, 100, 511, 512, 513, 2047, 2048, 4095, 4096, 8192, 70000]


def make_delta(r, base, ln):
    """(commands, result) of a delta on base"""
    cmds, out = [], bytearray()
    for _ in range(r.choice([0, 1, 2, 4])):
        if base and r.random() < .6:
            o = r.randrange(len(base))
            n = r.randrange(1, min(len(base) - o, 0x20000) + 1)
            cmds.append(("c", o, n))
            out += base[o:o + n]
        else:
            d = r.randbytes(r.choice([1, 20, 127, 128, 600]))
            cmds.append(("i", d))
            out += d
    return cmds, bytes(out)


def build(job, r):
    """entries with their truth; None if the layout cannot be realised"""
    es = job["es"]
    n = len(es)
    ent = [None] * n          # (pl.Entry, type, content)
    used = set()
    state = [0] * n

    def fresh():
        while True:
            s = r.randbytes(20)
            if s not in used:
                return s

    def root(k, seen=()):
        e = es[k]
        if e["kind"] == "whole":
            return k
        if e["base"] == 0 or e["base"] - 1 in seen or e["base"] - 1 == k:
            return None
        return root(e["base"] - 1, seen + (k,))
    content = [b""] * n
    typ = [b""] * n
    stored = [b""] * n
    sha = [None] * n

    def make(k):
        if state[k]:
            return
        state[k] = 1
        e = es[k]
        if e["kind"] == "whole":
            typ[k] = r.choice(TYPES)
            ln = job["big"] if job.get("big") and k == 0 else r.choice(SIZES)
            d = pl.content(r, ln, job.get("content") if ln == job.get("big") and job.get("content") else r.choice(["zero", "random", "text", "mixed"]))
            while pl.oid(typ[k], d) in used:
                d += r.randbytes(3)
            content[k] = stored[k] = d
            sha[k] = pl.oid(typ[k], d)
        else:
            rt = root(k)
            if rt is None:
                base = r.randbytes(100)
                cm, res = make_delta(r, base, 0)
                sha[k] = fresh()
            else:
                b = e["base"] - 1
                make(b)
                typ[k] = typ[rt]
                base = content[b]
                cm, res = make_delta(r, base, 0)
                while pl.oid(typ[k], res) in used:
                    d = r.randbytes(4)
                    cm.append(("i", d))
                    res += d
                content[k] = res
                sha[k] = pl.oid(typ[k], res)
            stored[k] = pl.enc_delta(len(base), len(res), cm)
        used.add(sha[k])
    for k in range(n):
        make(k)
    missing = fresh()
    return es, n, root, content, typ, stored, sha, missing


def run(job):
    r = rng("read", job["n"])
    es, n, root, content, typ, stored, sha, missing = build(job, r)
    names = {}
    for d in content + stored:
        names.setdefault(d, "c%d" % len(names))
    zo = [{"level": r.choice([0, 1, 6, 9]), "strategy": r.choice([0, 0, 1, 2, 3, 4])} for _ in range(n)]
    pads = [r.choice([0, 0, 0, 1, 2]) for _ in range(n)]
    swap = {}
    dams = {d["k"] - 1: d["how"] for d in job["dam"]}

    def entries(data):
        return [pl.Entry("whole" if e["kind"] == "whole" else e["kind"], data[k], sha[k], typ=typ[k] if e["kind"] == "whole" else None,
                         base=((e["base"] - 1 if e["base"] else dist[k]) if e["kind"] == "ofs" else sha[e["base"] - 1] if e["base"] else missing), zopts=zo[k], pad=pads[k])
                for k, e in enumerate(es)]
    # an offset delta whose base is not in the pack: itself, the header, before the start of the pack
    dist = [r.choice([lambda o: 0, lambda o: o, lambda o: o - 3, lambda o: o - 11, lambda o: o + 1, lambda o: o + 12, lambda o: 1 << 40]) for _ in range(n)]
    orig = entries(stored)
    pl.build_pack(orig)
    data = list(stored)
    for k, how in list(dams.items()):
        if how.startswith("swap"):
            if es[k]["kind"] == "whole":
                d = bytearray(data[k])
                if d and r.random() < .5:
                    d[r.randrange(len(d))] ^= 1 << r.randrange(8)
                else:
                    d = bytearray(r.randbytes(len(d) + r.choice([0, 1, 5])))
                if bytes(d) == data[k]:
                    d += b"!"
                data[k] = bytes(d)
            else:
                b = content[es[k]["base"] - 1] if root(k) is not None and es[k]["base"] else b""
                # another well-formed delta on the same base
                x = r.randbytes(9)
                data[k] = pl.enc_delta(len(b), 9 if not b else 10, [("i", x)] if not b else [("c", 0, 1), ("i", x)])
                # what depends on it may not be decodable any more
    ents = entries(data)
    pack = bytearray(pl.build_pack(ents))
    crcs = {}
    for k in range(n):
        crcs[k] = orig[k].crc if dams.get(k) != "swapcrc" else ents[k].crc
    for k, how in dams.items():
        e = ents[k]
        if how == "flip":
            where = r.choice(["any", "any", "head", "tail", "z"])
            at = {"any": lambda: r.randrange(e.offset, e.end), "head": lambda: r.randrange(e.offset, e.zoff),
                  "tail": lambda: e.end - 1 - r.randrange(min(4, e.end - e.offset)), "z": lambda: r.randrange(e.zoff, e.end)}[where]()
            pack[at] ^= 1 << r.randrange(8) if r.random() < .7 else r.randrange(1, 256)
        elif how == "crc":
            crcs[k] ^= r.choice([1, 0x80000000, r.randrange(1, 1 << 32)])
    crcok = [crcs[k] == zlib.crc32(bytes(pack[ents[k].offset:ents[k].end])) & 0xffffffff for k in range(n)]
    if job.get("alien"):
        pack[:4] = r.choice([b"PACL", b"pack", b"KCAP", b"\0\0\0\0", b"\377tOc", b"PAC\0"])
    pack[-20:] = hashlib.sha1(bytes(pack[:-20])).digest()
    version = job["version"]
    root_d = place("p%d" % job["n"])
    pd = os.path.join(root_d, "pack")
    os.makedirs(pd)
    path = os.path.join(pd, "pack-%s.pack" % r.randbytes(20).hex())
    f64 = r.random() < .25
    half = r.random() < .5
    with open(path, "wb") as f:
        f.write(pack)
    with open(path[:-5] + ".idx", "wb") as f:
        f.write(pl.build_index([(sha[k], crcs[k], ents[k].offset) for k in range(n)], bytes(pack[-20:]), version,
                               force64=(lambda o: (o * 7919) % 2 == 0) if f64 and half else f64))
    rank = {s: k for k, s in enumerate(sorted(sha))}
    kindname = {"ofs": "OFS_DELTA", "ref": "REF_DELTA"}
    cfg = {"version": version, "alien": bool(job.get("alien")), "entries": [{
        "kind": e["kind"], "base": e["base"], "u": rank[sha[k]], "type": typ[k].decode(), "size": len(content[k]), "c": names[content[k]],
        "ssize": len(data[k]), "sc": names.get(data[k], "d%d" % k), "off": str(ents[k].offset), "stype": kindname.get(e["kind"], typ[k].decode()),
        "lu": -1 if e["kind"] != "ref" else rank[sha[e["base"] - 1]] if e["base"] else -2,
        "loff": "" if e["kind"] != "ofs" else str(ents[e["base"] - 1].offset) if e["base"] else "nowhere",
        "dam": {"flip": "flip", "swap": "swap", "swapcrc": "swap"}.get(dams.get(k), ""), "crcok": crcok[k]} for k, e in enumerate(es)]}
    for k in range(n):
        names.setdefault(data[k], "d%d" % k)
    ev = []
    current(cfg, ev)
    ent = PackEntity(path)
    order = [sha.index(s) for s in sorted(sha)]
    idx = {k: i for i, k in enumerate(order)}
    dbs = [lambda: PackedDB(pd), lambda: GitDB(root_d)]
    db = dbs[r.randrange(2)]()

    def tname(v):
        return v.decode("latin1") if isinstance(v, bytes) else str(v)

    def rank_of(b):
        return rank.get(bytes(b), 1 << 30) if isinstance(b, (bytes, memoryview)) else 1 << 29

    def fill(e, v, data_):
        e["u"] = rank_of(binsha(v))
        e["type"], e["size"] = tname(v.type), v.size
        if data_:
            e["c"] = names.get(data_, "other")

    def reader(v):
        """content in pieces"""
        got = b""
        if r.random() < .3:
            v.read(r.choice([1, 5, 600]))
            v.stream.seek(0)
        if r.random() < .5:
            return v.read()
        while True:
            b = v.read(r.choice([1, 500, 4096, 70000]) if len(got) < 5000 else 1000000)
            if not b:
                return got
            got += b

    def obj(op, k, way=None):
        s = sha[k] if k is not None else (missing if r.random() < .5 else r.randbytes(20))
        ways = ["id", "db"] + (["index"] if k is not None else [])
        way = way or r.choice(ways)
        fn = getattr(ent, op) if way == "id" else getattr(db, op) if way == "db" else getattr(ent, op + "_at_index")
        e = {"op": op, "way": way, "k": 0 if k is None else k + 1, "u": -1, "type": "", "size": -1, "c": ""}

        def go():
            v = fn(s if way != "index" else idx[k])
            b = reader(v) if op == "stream" else None
            fill(e, v, None)
            if op == "stream":
                e["c"] = names.get(b, "other")
        e["out"] = call(go)[0]
        ev.append(e)

    def interleaved():
        ks = [k for k in range(n) if root(k) is not None]
        if len(ks) < 2:
            return
        a, b = r.sample(ks, 2)
        es2 = [{"op": "stream", "way": "interleaved", "k": x + 1, "u": -1, "type": "", "size": -1, "c": "", "out": "ok"} for x in (a, b)]

        def go():
            sa, sb = ent.stream(sha[a]), (db if r.random() < .5 else ent).stream(sha[b])
            ga, gb = b"", b""
            while True:
                x, y = sa.read(r.choice([1, 100, 50000])), sb.read(r.choice([1, 100, 50000]))
                ga += x
                gb += y
                if not x and not y:
                    break
                if len(ga) + len(gb) > 1500 and r.random() < .5:
                    ga += sa.read()
                    gb += sb.read()
            for e, v, g in ((es2[0], sa, ga), (es2[1], sb, gb)):
                fill(e, v, None)
                e["c"] = names.get(g, "other")
        out = call(go)[0]
        for e in es2:
            e["out"] = out
            ev.append(e)

    def item(o, data_):
        x = {"off": str(o.pack_offset), "stype": tname(o.type), "size": o.size, "c": ""}
        x["loff"], b = link(o)
        x["lu"] = rank.get(b, -2) if b else -1
        if data_:
            x["c"] = names.get(o.read() if r.random() < .6 else o.read(o.size) if o.size else b"", "other")
        return x

    def walk(frm, data_):
        pf = PackFile(path) if r.random() < .4 else ent.pack()
        items = []
        fn = pf.stream_iter
        hold = r.random() < .4

        def go():
            kept = []
            # a walk over damaged data may never end
            for o in (fn(ents[frm].offset) if frm or r.random() < .5 else fn()):
                if hold:
                    kept.append(o)
                else:
                    items.append(item(o, data_))
                if len(items) + len(kept) > n + 3:
                    break
            for o in kept:
                items.append(item(o, data_))
        out = call(go)[0]
        ev.append({"op": "walk", "from": frm + 1, "data": data_, "out": out, "items": items})

    def single(k, data_):
        pf = PackFile(path) if r.random() < .4 else ent.pack()
        e = {"op": "entry", "k": k + 1, "data": data_, "item": {}}

        def go():
            e["item"] = item((pf.stream if data_ else pf.info)(ents[k].offset), data_)
        e["out"] = call(go)[0]
        ev.append(e)

    def iterate(data_):
        items = []

        def go():
            for o in (ent.stream_iter() if data_ else ent.info_iter()):
                x = {}
                b = reader(o) if data_ else None
                fill(x, o, None)
                x["c"] = names.get(b, "other") if data_ else ""
                items.append(x)
        out = call(go)[0]
        ev.append({"op": "iter", "data": data_, "out": out, "items": items})

    def chain(k):
        out, v = call(lambda: [str(o.pack_offset) for o in (ent.collect_streams(sha[k]) if r.random() < .5 else ent.collect_streams_at_offset(ents[k].offset))])
        ev.append({"op": "chain", "k": k + 1, "out": out, "offs": v if out == "ok" else []})

    def packinfo():
        def go():
            p = ent.pack()
            return p.size(), p.version(), bytes(p.checksum()) == bytes(pack[-20:])
        out, v = call(go)
        v = v if out == "ok" else (-1, -1, False)
        ev.append({"op": "pack", "out": out, "size": v[0], "version": v[1], "sum": v[2]})

    def ids():
        out, v = call(lambda: [rank_of(x) for x in db.sha_iter()])
        ev.append({"op": "ids", "out": out, "us": v if out == "ok" else []})

    def verify(k, crc):
        s = sha[k] if k is not None else r.randbytes(20)
        e = {"op": "crc" if crc else "sha", "k": 0 if k is None else k + 1, "v": False, "got": ""}
        if not crc and k is not None:
            def look():
                v = ent.stream(s)
                z = v.size
                if z > 1 << 28:
                    raise MemoryError()
                b = v.read(z) if z else b""
                return hashlib.sha1(tname(v.type).encode("latin1") + b" %d\0" % z + b).digest() == s
            out, v = call(look)
            e["got"] = "raised" if out != "ok" else "same" if v else "differs"
        out, v = call(ent.is_valid_stream, s, use_crc=crc)
        e["out"], e["v"] = out, v is True or (out == "ok" and v not in (False, None, 0))
        ev.append(e)

    acts = []
    if job["what"] == "read":
        ks = list(range(n)) if n <= 6 else r.sample(range(n), 6)
        for k in ks:
            acts += [("o", "info", k), ("o", "stream", k), ("o", "info", k), ("o", "stream", k), ("c", k), ("s", k, True), ("s", k, False)]
        acts += [("w", 0, True), ("w", 0, False), ("w", r.randrange(n), True), ("w", n - 1, False), ("i", True), ("i", False), ("p",), ("ids",),
                 ("x",), ("x",), ("o", "info", None), ("o", "stream", None)]
    else:
        ks = list(range(n)) if n <= 8 else r.sample(range(n), 8)
        for k in ks:
            acts += [("v", k, True), ("v", k, False)]
        acts += [("v", None, True), ("v", None, False), ("v", order[-1], True)]
    r.shuffle(acts)
    for a in acts:
        if a[0] == "o":
            obj(a[1], a[2])
        elif a[0] == "w":
            walk(a[1], a[2])
        elif a[0] == "s":
            single(a[1], a[2])
        elif a[0] == "i":
            iterate(a[1])
        elif a[0] == "c":
            chain(a[1])
        elif a[0] == "p":
            packinfo()
        elif a[0] == "ids":
            ids()
        elif a[0] == "x":
            interleaved()
        else:
            if a[1] is None and a[2] is False:
                e = {"op": "sha", "k": 0, "v": False, "got": ""}
                out, v = call(ent.is_valid_stream, r.randbytes(20), use_crc=False)
                e["out"] = out
                # k = 0 has no chain: judged by its own operation
                ev.append({"op": "info", "way": "verify", "k": 0, "u": -1, "type": "", "size": -1, "c": "", "out": out})
            else:
                verify(a[1], a[2])
        if enough():
            break
    ent = db = None
    emit(cfg, ev, job.get("label", ""))
    shutil.rmtree(root_d, ignore_errors=True)
    if job["n"] % 50 == 0:
        call(mman.collect)


for n, job in jobs():
    run(job)
