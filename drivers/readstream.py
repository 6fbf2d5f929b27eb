"""C03: read object streams of every kind through histories of read / rewind / length query."""
import mmap
import os
import zlib
from drv import *
import packlib as pl
from gitdb.stream import DecompressMemMapReader, DeltaApplyReader
from gitdb.db import LooseObjectDB, MemoryDB
from gitdb.pack import PackEntity
from gitdb.base import IStream
from io import BytesIO

limit(5)


def make(spec, n):
    """build one stream factory: returns (content, clen or -1, opener, size getter)"""
    r = rng("stream", n, spec["kind"])
    data = pl.content(r, spec["len"], spec["content"])
    z = dict(level=spec["level"], strategy=spec["strategy"], wbits=spec["wbits"], flush_every=spec["flush"],
             full=spec["full"])
    trail = {"none": b"", "one": b"\1", "sha": r.randbytes(20), "obj": pl.deflate(b"something else") + r.randbytes(20),
             "big": r.randbytes(20000), "same": None}[spec["trail"]]
    kind = spec["kind"]

    def mem(b):
        m = spec["mem"]
        if m == "bytes":
            return b
        if m == "view":
            return memoryview(b)
        mm = mmap.mmap(-1, len(b))
        mm[:] = b
        return mm

    if kind == "raw":
        comp = pl.deflate(data, **z)
        m = mem(comp + (comp if trail is None else trail))
        return data, len(comp), lambda: DecompressMemMapReader(m, False, len(data)), None
    hdr = b"blob " + str(len(data)).encode() + b"\0"
    comp = pl.deflate(hdr + data, **z)
    if kind in ("lazy", "new"):
        m = mem(comp + (comp if trail is None else trail))
        if kind == "lazy":
            return data, len(comp), lambda: DecompressMemMapReader(m, False), None
        got = []

        def new():
            t, s, st = DecompressMemMapReader.new(m)
            got.append(s)
            return st
        return data, len(comp), new, lambda st: got[-1]
    d = os.path.join(SCRATCH, "s%d" % n)
    os.makedirs(d, exist_ok=True)
    if kind == "loose":
        sha = pl.write_loose(d, b"blob", data, **z)
        db = LooseObjectDB(d)
        p = os.path.join(d, sha.hex()[:2], sha.hex()[2:])
        return data, os.path.getsize(p), lambda: db.stream(sha), lambda st: st.size
    if kind == "mem":
        mdb = MemoryDB()
        sha = mdb.store(IStream(b"blob", len(data), BytesIO(data))).binsha
        return data, -1, lambda: mdb.stream(sha), lambda st: st.size
    # in a pack, between others
    before = pl.Entry("whole", r.randbytes(r.choice([0, 3, 5000])), b"\1" * 20, b"blob")
    after = pl.Entry("whole", r.randbytes(r.choice([0, 3, 5000])), b"\3" * 20, b"blob")
    if kind == "pack":
        e = pl.Entry("whole", data, b"\2" * 20, b"blob", zopts=z, pad=r.choice([0, 0, 1]))
        es = [before, e, after] if spec["trail"] != "sha" else [before, e]
        path = pl.write_pack(d, es)
        ent = PackEntity(path)
        return data, e.end - e.zoff, lambda: ent.stream(e.sha), lambda st: st.size
    # delta: content resolved from a chain over a base
    chain = 1 + n % 3
    cur = pl.content(r, r.choice([0, 1, 50, 5000]), "mixed")
    es = [before, pl.Entry("whole", cur, b"\2" * 20, b"tree")]
    for k in range(chain):
        tgt = data if k == chain - 1 else pl.content(r, r.choice([1, 100, 6000]), "text")
        cmds = []
        pos = 0
        while pos < len(tgt):
            ln = min(len(tgt) - pos, r.choice([1, 100, 500]))
            at = cur.find(tgt[pos:pos + ln]) if cur else -1
            cmds.append(("c", at, ln) if at >= 0 else ("i", tgt[pos:pos + ln]))
            pos += ln
        dl = pl.enc_delta(len(cur), len(tgt), cmds)
        es.append(pl.Entry("ofs" if (n + k) % 2 else "ref", dl, bytes([4 + k]) * 20,
                           base=len(es) - 1 if (n + k) % 2 else es[-1].sha, zopts=z))
        cur = tgt
    path = pl.write_pack(d, es + [after])
    ent = PackEntity(path)
    sha = es[-1].sha
    if spec["trail"] == "one":
        return data, -1, lambda: DeltaApplyReader.new(ent.collect_streams(sha)), lambda st: st.size
    return data, -1, lambda: ent.stream(sha), None


def inner(st):
    return st.stream if isinstance(st, tuple) else st


def concrete(code, L, r):
    return {0: -1, 1: 1, 2: 2, 3: 7, 4: 100, 5: L // 2, 6: L - 1, 7: L, 8: L + 1, 9: 8192, 10: 4096, 11: 0}.get(code, 3)


for n, job in jobs():
    spec = job["stream"]
    r = rng("ops", n)
    data, clen, opener, size = make(spec, job["n"])
    L = len(data)
    for hist in job["hists"]:
        if enough():
            break
        cfg = {"len": L, "clen": clen, "stream": spec}
        ev = []
        current(cfg, ev)
        out, st = call(opener)
        if out != "ok":
            ev.append({"op": "open", "out": out})
            emit(cfg, ev)
            continue
        if size is not None:
            o, v = call(size, st)
            ev.append({"op": "size", "out": o, "v": v if o == "ok" and isinstance(v, int) else -1})
        pos = 0
        for op in hist:
            if op["op"] == "read":
                nn = concrete(op["n"], L, r)
                o, b = call(st.read, nn)
                if o == "ok" and isinstance(b, (bytes, bytearray, memoryview)):
                    b = bytes(b)
                    k = len(b)
                    if data[pos:pos + k] == b:
                        at = pos
                    else:
                        at = data.find(b)
                    pos += k
                    ev.append({"op": "read", "n": nn, "out": "ok", "k": k, "at": at})
                else:
                    ev.append({"op": "read", "n": nn, "out": o if o != "ok" else "type", "k": 0, "at": 0})
                    break
            elif op["op"] == "seek":
                o, _ = call(inner(st).seek, 0)
                pos = 0
                ev.append({"op": "seek", "out": o})
                if o != "ok":
                    break
            else:
                s = inner(st)
                if isinstance(s, DecompressMemMapReader):
                    o, v = call(s.compressed_bytes_read)
                    ev.append({"op": "clen", "out": o, "v": v if o == "ok" and isinstance(v, int) else -1})
                    if o != "ok":
                        break
        emit(cfg, ev)
