"""C21: packs of many GiB (sparse files, and one which is not), laid out and used as the BigPack specification says"""
import hashlib
import os
import shutil
import struct
import zlib
from drv import *
import packlib as pl
from gitdb.db import PackedDB, GitDB
from gitdb.pack import PackEntity, PackFile
from gitdb.util import mman

limit(60)
GiB = 1 << 30


def head_of(kind, typ, size, dist, base):
    if kind == "whole":
        return pl.obj_header(pl.TYPES[typ], size)
    if kind == "ofs":
        return pl.obj_header(pl.OFS, size) + pl.ofs_encode(dist)
    return pl.obj_header(pl.REF, size) + base


def spot(r, off, ln, total):
    q, j = divmod(off, 4)
    if j == 0:
        return q * GiB + r.choice([0, 0, 1, 4095, 4096])
    if j == 1:
        return q * GiB + r.choice([4096, r.randrange(1, 1 << 16), 1 << 20])
    if j == 2:
        return q * GiB + r.randrange(1 << 21, GiB // 2)
    if ln == 2:
        return (q + 1) * GiB - r.choice([1, 2, 3, min(total - 1, r.randrange(1, 30)), r.randrange(1, total), total - 1])
    return (q + 1) * GiB - total - r.choice([0, 0, 1, 20, 4096])


def sparse(job, r, path):
    """writes the file, returns the entries"""
    es = []
    end = 0
    fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_EXCL, 0o644)
    prev_end_unit = 0
    for k, u in enumerate(job["es"]):
        e = {}
        b = u["base"] - 1
        if u["base"] == 0:
            e["kind"], e["typ"] = "whole", r.choice(sorted(pl.TYPES))
            e["data"] = pl.content(r, r.choice([5, 300, 5000, 100000, 1500000]), r.choice(["random", "random", "text"])) + b"%d" % k
            stored = e["data"]
        else:
            base = es[b]
            e["kind"], e["typ"] = r.choice(["ofs", "ofs", "ref"]), base["typ"]
            n = len(base["data"])
            cmds = [("c", n // 4, n // 2), ("i", r.randbytes(r.choice([3, 100, 3000]))), ("c", 0, n // 3 + 1), ("i", b"%d" % k)]
            e["data"] = pl.apply_cmds(base["data"], cmds)
            stored = pl.enc_delta(n, len(e["data"]), cmds)
        e["stored"], e["base"] = stored, u["base"]
        e["sha"] = pl.oid(e["typ"], e["data"])
        z = pl.deflate(stored, level=r.choice([0, 1, 6]))

        def raw(at):
            return head_of(e["kind"], e["typ"], len(stored), at - es[b]["offset"] if e["kind"] == "ofs" else 0, es[b]["sha"] if b >= 0 else b"") + z
        total = len(raw(end + 10))
        at = 12 if k == 0 else end if u["off"] == prev_end_unit else max(end, spot(r, u["off"], u["len"], total))
        prev_end_unit = u["off"] + u["len"]
        e["offset"] = at
        d = raw(at)
        e["crc"] = zlib.crc32(d) & 0xffffffff
        os.pwrite(fd, d, at)
        end = e["end"] = at + len(d)
        es.append(e)
    foot = r.randbytes(20)
    os.pwrite(fd, foot, end)
    os.pwrite(fd, struct.pack(">4sLL", b"PACK", 2, len(es)), 0)
    os.close(fd)
    return es, foot, end + 20


def solid(job, r, path):
    """no holes: a blob of more than a GiB, with others before and behind it"""
    es = []
    big = job["big"]
    piece = r.randbytes(1 << 20)
    with open(path, "wb") as f:
        f.write(struct.pack(">4sLL", b"PACK", 2, 6))

        def small(kind, base=None):
            if kind == "whole":
                data = stored = r.randbytes(3000)
                typ = b"tree"
                h = pl.obj_header(pl.TYPES[typ], len(data))
            else:
                typ, o = base["typ"], base["data"]
                cmds = [("c", 5, 1000), ("i", b"abc%d" % len(es))]
                data, stored = pl.apply_cmds(o, cmds), pl.enc_delta(len(o), 1004, cmds)
                h = head_of(kind, typ, len(stored), f.tell() - base["offset"], base["sha"])
            raw = h + pl.deflate(stored)
            e = dict(kind=kind, typ=typ, data=data, stored=stored, base=es.index(base) + 1 if base else 0, sha=pl.oid(typ, data),
                     offset=f.tell(), crc=zlib.crc32(raw) & 0xffffffff)
            f.write(raw)
            e["end"] = f.tell()
            es.append(e)
            return e
        a = small("whole")
        off = f.tell()
        h = pl.obj_header(3, big)
        sha = hashlib.sha1(b"blob %d\0" % big)
        hc = hashlib.sha1()
        c = zlib.compressobj(0)
        crc = zlib.crc32(h)
        f.write(h)
        done = 0
        while done < big:
            d = (struct.pack(">Q", done) + piece)[:min(big - done, 1 << 20)]
            sha.update(d)
            hc.update(d)
            x = c.compress(d)
            crc = zlib.crc32(x, crc)
            f.write(x)
            done += len(d)
        x = c.flush()
        f.write(x)
        es.append(dict(kind="whole", typ=b"blob", digest=hc.digest(), base=0, sha=sha.digest(), offset=off, end=f.tell(),
                       crc=zlib.crc32(x, crc) & 0xffffffff, size=big))
        b = small("whole")
        small("ofs", a)
        small("ref", a)
        small("ofs", b)
        foot = r.randbytes(20)
        f.write(foot)
        return es, foot, f.tell()


OTHER = []


def other():
    """another pack of 6 GiB, so that more is mapped than the manager wants to"""
    if not OTHER:
        d = os.path.join(SCRATCH, "other")
        os.mkdir(d)
        e = pl.Entry("whole", b"other", pl.oid(b"blob", b"other"), typ=b"blob")
        OTHER.append(pl.write_pack(d, [e]))
        os.truncate(OTHER[0], 6 << 30)
    ent = PackEntity(OTHER[0])
    return ent, ent.stream(pl.oid(b"blob", b"other"))


def run(job):
    r = rng("big", job["n"])
    others = []
    root_d = os.path.join(SCRATCH, "b%d" % job["n"])
    pd = os.path.join(root_d, "pack")
    os.makedirs(pd)
    path = os.path.join(pd, "pack-%s.pack" % r.randbytes(20).hex())
    es, foot, flen = (solid if "big" in job else sparse)(job, r, path)
    n = len(es)
    version = 1 if es[-1]["offset"] < 1 << 32 and r.random() < .4 else 2
    with open(path[:-5] + ".idx", "wb") as f:
        f.write(pl.build_index([(e["sha"], e["crc"], e["offset"]) for e in es], foot, version))
    rank = {s: k for k, s in enumerate(sorted(e["sha"] for e in es))}
    names = {}
    for e in es:
        for d in (e.get("digest") or hashlib.sha1(e["data"]).digest(), e.get("digest") or hashlib.sha1(e["stored"]).digest()):
            names.setdefault(d, "c%d" % len(names))
    kindname = {"ofs": "OFS_DELTA", "ref": "REF_DELTA"}
    cfg = {"version": version, "alien": False, "flen": str(flen), "entries": [{
        "kind": e["kind"], "base": e["base"], "u": rank[e["sha"]], "type": e["typ"].decode(), "size": e.get("size") or len(e["data"]),
        "c": names[e.get("digest") or hashlib.sha1(e["data"]).digest()], "ssize": e.get("size") or len(e["stored"]),
        "sc": names[e.get("digest") or hashlib.sha1(e["stored"]).digest()], "off": str(e["offset"]), "stype": kindname.get(e["kind"], e["typ"].decode()),
        "lu": -1 if e["kind"] != "ref" else rank[es[e["base"] - 1]["sha"]] if e["base"] else -2,
        "loff": "" if e["kind"] != "ofs" else str(es[e["base"] - 1]["offset"]) if e["base"] else "nowhere",
        "dam": "", "crcok": True} for e in es]}
    sha = [e["sha"] for e in es]
    idx = {k: rank[s] for k, s in enumerate(sha)}
    ev = []
    current(cfg, ev)
    st = {}

    def reopen():
        st["ent"] = PackEntity(path)
        st["db"] = r.choice([lambda: PackedDB(pd), lambda: GitDB(root_d)])()

    def tname(v):
        return v.decode("latin1") if isinstance(v, bytes) else str(v)

    def slurp(v):
        h = hashlib.sha1()
        if r.random() < .4 and v.size < 1 << 24:
            h.update(v.read())
        else:
            c = r.choice([1000, 65536, 1 << 22]) if v.size < 1 << 24 else 1 << 22
            while True:
                b = v.read(c)
                if not b:
                    break
                h.update(b)
        return names.get(h.digest(), "other")

    def obj(op, k):
        way = r.choice(["id", "db", "index"])
        fn = getattr(st["ent"], op) if way == "id" else getattr(st["db"], op) if way == "db" else getattr(st["ent"], op + "_at_index")
        e = {"op": op, "way": way, "k": k + 1, "u": -1, "type": "", "size": -1, "c": ""}

        def go():
            v = fn(sha[k] if way != "index" else idx[k])
            e["u"], e["type"], e["size"] = rank.get(binsha(v), 1 << 30), tname(v.type), v.size
            if op == "stream":
                if r.random() < .3:
                    held.append((e, v))
                else:
                    e["c"] = slurp(v)
        e["out"] = call(go)[0]
        ev.append(e)
    held = []

    def item(o, data_):
        loff, b = link(o)
        return {"off": str(o.pack_offset), "stype": tname(o.type), "size": o.size, "c": slurp(o) if data_ else "", "loff": loff, "lu": rank.get(b, -2) if b else -1}

    def entry(k):
        data_ = r.random() < .7
        e = {"op": "entry", "k": k + 1, "data": data_, "item": {}}
        pf = PackFile(path) if r.random() < .3 else st["ent"].pack()

        def go():
            e["item"] = item((pf.stream if data_ else pf.info)(es[k]["offset"]), data_)
        e["out"] = call(go)[0]
        ev.append(e)

    def chain(k):
        out, v = call(lambda: [str(o.pack_offset) for o in st["ent"].collect_streams(sha[k])])
        ev.append({"op": "chain", "k": k + 1, "out": out, "offs": v if out == "ok" else []})

    def follows(k):
        return es[k]["end"] == (es[k + 1]["offset"] if k + 1 < n else flen - 20)

    def verify(k, crc):
        e = {"op": "crc" if crc else "sha", "k": k + 1, "v": False, "got": ""}
        out, v = call(st["ent"].is_valid_stream, sha[k], use_crc=crc)
        e["out"], e["v"] = out, v is True or (out == "ok" and v not in (False, None, 0))
        ev.append(e)

    def footer():
        def go():
            p = st["ent"].pack()
            return p.size(), p.version(), bytes(p.checksum()) == foot
        out, v = call(go)
        v = v if out == "ok" else (-1, -1, False)
        ev.append({"op": "pack", "out": out, "size": v[0], "version": v[1], "sum": v[2]})

    def data():
        k = r.randrange(n)
        o = es[k]["offset"]

        def go():
            d = st["ent"].pack().data()
            with open(path, "rb") as f:
                f.seek(o)
                return str(len(d)), bytes(d[o:o + 20]) == f.read(20) and bytes(d[flen - 20:flen]) == foot
        out, v = call(go)
        v = v if out == "ok" else ("", False)
        ev.append({"op": "data", "out": out, "len": v[0], "same": v[1]})

    def walk(k):
        data_ = r.random() < .6
        items = []
        pf = PackFile(path) if r.random() < .4 else st["ent"].pack()

        def go():
            for o in pf.stream_iter(es[k]["offset"]):
                items.append(item(o, data_))
                if len(items) > n + 3:
                    break
        out = call(go)[0]
        ev.append({"op": "walk", "from": k + 1, "data": data_, "out": out, "items": items})

    def it():
        items = []
        data_ = r.random() < .5

        def go():
            for v in (st["ent"].stream_iter() if data_ else st["ent"].info_iter()):
                items.append({"u": rank.get(binsha(v), 1 << 30), "type": tname(v.type), "size": v.size, "c": slurp(v) if data_ else ""})
        out = call(go)[0]
        ev.append({"op": "iter", "data": data_, "out": out, "items": items})

    def ids():
        out, v = call(lambda: [rank.get(bytes(x), 1 << 30) for x in st["db"].sha_iter()])
        ev.append({"op": "ids", "out": out, "us": v if out == "ok" else []})
    reopen()
    suffix = n - 1
    while suffix and follows(suffix - 1):
        suffix -= 1
    for o in job["ops"]:
        k = o["k"] - 1
        if o["op"] == "read":
            x = r.random()
            if x < .2:
                obj("info", k)
            elif x < .6:
                obj("stream", k)
            elif x < .7:
                entry(k)
            elif x < .77:
                chain(k)
            elif x < .87:
                verify(k, False)
            else:
                js = [j for j in range(n) if follows(j)]
                verify(r.choice(js), True) if js and version == 2 else verify(k, False)
        elif o["op"] == "footer":
            footer()
        elif o["op"] == "data":
            data()
        elif o["op"] == "collect":
            if r.random() < .5:
                others.append(other())
                if r.random() < .7:
                    del others[:]
                continue
            call(mman.collect)      # (raises if a region is gone to which there still is a stream)
        elif o["op"] == "reopen":
            reopen()
        elif o["op"] == "walk":
            walk(k)
    for f in r.sample([lambda: walk(r.randrange(suffix, n)), it, ids, footer, data], 3) + [lambda: walk(suffix)]:
        f()
    for e, v in held:
        out, c = call(lambda: slurp(v))
        e["out"], e["c"] = out, c if out == "ok" else ""
    emit(cfg, ev)
    del st["ent"], st["db"]
    held.clear()
    call(mman.collect)
    os.unlink(path)
    shutil.rmtree(root_d, ignore_errors=True)


for n, job in jobs():
    run(job)
