"""C01 / C17 / C18: step real databases through histories of the ObjectStore contract."""
import os
import shutil
import stat
import tempfile
import zlib
from io import BytesIO
from drv import *
import packlib as pl
from gitdb.base import IStream
from gitdb.db import LooseObjectDB, GitDB, MemoryDB
from gitdb.stream import DecompressMemMapReader, Sha1Writer, FlexibleSha1Writer, ZippedStoreShaWriter

limit(20)


class Recorder(Sha1Writer):
    def __init__(self):
        super().__init__()
        self.got = []

    def write(self, data):
        self.got.append(bytes(data))
        return super().write(data)


class Chunky:
    """a file-like source which is no BytesIO"""

    def __init__(self, data):
        self.b = BytesIO(data)

    def read(self, n=-1):
        return self.b.read(n)


def source(r, data, encoded):
    """a stream which provides data from where it is"""
    k = r.randrange(12)
    if k >= 10:
        return Trickle(r, data)
    if k < 3:
        return BytesIO(data)
    if k < 5:
        return Chunky(data)
    if k == 5:
        # a raw file
        f = tempfile.TemporaryFile(dir=SCRATCH, buffering=r.choice([0, 8192]))
        f.write(data)
        f.flush()
        f.seek(0)
        return f
    if k == 6 and not encoded:
        # what another stream of the library decompresses
        return DecompressMemMapReader(zlib.compress(data), close_on_deletion=False, size=len(data))
    # not at its beginning; an object ends at its size, an encoded one with its source
    head = bytes(r.choice([1, 12, 17, 4096]))
    b = BytesIO(head + data + (b"" if encoded else bytes(r.choice([0, 0, 1, 5000]))))
    b.seek(len(head))
    return b


def run(job, n):
    r = rng("store", job["n"])
    root = place("j%d" % job["n"])
    os.mkdir(root)
    roots = []
    for k in range(job["nst"]):
        d = os.path.join(root, "s%d" % (k + 1))
        os.mkdir(d)
        roots.append(d)
    objs = []
    contents = {}
    for o in job["objs"]:
        if "dup" in o:
            objs.append(objs[o["dup"] - 1])
            continue
        data = pl.content(r, o["len"], o["content"]) if "sameas" not in o else objs[o["sameas"] - 1]["data"]
        typ = o["type"].encode()
        name = contents.setdefault(data, "c%d" % (len(contents) + 1))
        objs.append(dict(typ=typ, data=data, id=pl.oid(typ, data), c=name, strtype=o.get("str", False),
                         enc=pl.deflate(typ + b" %d\0" % len(data) + data, level=o["level"])))
    byid = {o["id"]: o for o in objs}
    cfg = {"objs": [{"id": o["id"].hex(), "type": o["typ"].decode(), "size": len(o["data"]), "c": o["c"]} for o in objs],
           "dbs": job["dbs"], "nst": job["nst"]}
    ev = []
    current(cfg, ev)

    def opn(d):
        h = job["dbs"][d]
        if h["kind"] == "mem":
            return MemoryDB()
        return {"loose": LooseObjectDB, "git": GitDB}[h["kind"]](roots[h["at"] - 1])
    dbs = []
    mems = {}
    for d, h in enumerate(job["dbs"]):
        if h["kind"] == "mem":
            dbs.append(mems.setdefault(h["at"], None) or mems.setdefault(h["at"], opn(d)) or opn(d))
            mems[h["at"]] = dbs[-1]
        else:
            dbs.append(opn(d))
    streams = {}
    red = [0] * len(dbs)

    def typename(t):
        return t.decode("latin1") if isinstance(t, bytes) else "%s:%s" % (type(t).__name__, t)

    def hx(b):
        return b.hex() if isinstance(b, bytes) else "%s" % type(b).__name__

    def num(v):
        return v if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 2**31 else -1

    def one(e):
        op = e["op"]
        e = dict(e)
        db = dbs[e["d"] - 1] if "d" in e else None
        if op == "store":
            o = objs[e["o"] - 1]
            t = o["typ"].decode() if o["strtype"] else o["typ"]
            src = source(r, o["enc"] if e["enc"] else o["data"], e["enc"])
            ist = IStream(t, len(o["data"]), src, *([o["id"]] if e["enc"] else []))
            out, v = call(db.store, ist)
            e["out"] = out
            e["id"] = hx(binsha(v)) if out == "ok" and hasattr(v, "binsha") else ""
            e["same"] = v is ist and ist.binsha == getattr(v, "binsha", None)
            e["sink"], e["sid"] = "none", ""
            j = red[e["d"] - 1]
            if j:
                s = streams[j]
                full = o["enc"] if e["enc"] else o["typ"] + b" %d\0" % len(o["data"]) + o["data"]
                if isinstance(s, ZippedStoreShaWriter):
                    call(s.close)
                    o2, got = call(lambda: zlib.decompress(s.getvalue()))
                    got = got if o2 == "ok" else b"?"
                else:
                    got = b"".join(getattr(s, "got", []))
                e["sink"] = "exact" if got == full else "nothing" if not got else "other-bytes"
                o2, sid = call(s.sha, as_hex=True)
                e["sid"] = sid if o2 == "ok" else o2
        elif op == "has":
            out, v = call(db.has_object, objs[e["o"] - 1]["id"])
            e["out"], e["v"] = ("ok" if out == "ok" and isinstance(v, bool) else out if out != "ok" else "type"), v is True
        elif op in ("info", "stream"):
            o = objs[e["o"] - 1]
            out, v = call(getattr(db, op), o["id"])
            e.update(out=out, id="", type="", size=-1, c="")
            if out == "ok":
                e.update(id=hx(binsha(v)), type=typename(v.type), size=num(v.size))
                if op == "stream":
                    if e.get("part"):
                        k = r.choice([1, 3, 100, 8000])
                        out, b = call(v.read, k)
                        e["c"] = o["c"] if out == "ok" and b == o["data"][:k] else "part:" + out
                    else:
                        if r.random() < .4:
                            parts = []
                            while True:
                                out, b = call(v.read, r.choice([1000, 4096, 65536, 2000000]))
                                if out != "ok" or not b:
                                    break
                                parts.append(b)
                            b = b"".join(parts)
                        else:
                            out, b = call(v.read)
                        e["c"] = contents.get(b, "other") if out == "ok" else out
                    del v
        elif op == "iter":
            out, v = call(lambda: [hx(bytes(x)) for x in db.sha_iter()])
            e.update(out=out, ids=v if out == "ok" else [])
        elif op == "size":
            out, v = call(db.size)
            e.update(out=out, v=num(v))
        elif op == "reopen":
            out, v = call(opn, e["d"] - 1)
            e["out"] = out
            if out == "ok":
                dbs[e["d"] - 1] = v
                red[e["d"] - 1] = 0
        elif op == "disk":
            files, other = [], 0
            for base, ds, fs in os.walk(roots[e["at"] - 1]):
                for f in fs:
                    p = os.path.join(base, f)
                    bn = os.path.basename(base)
                    if len(bn) == 2 and len(f) == 38:
                        with open(p, "rb") as fd:
                            raw = fd.read()
                        o = byid.get(bytes.fromhex(bn + f))
                        d = zlib.decompressobj()
                        try:
                            dec = d.decompress(raw)
                            ok = o is not None and d.eof and not d.unused_data and dec == o["typ"] + b" %d\0" % len(o["data"]) + o["data"]
                        except zlib.error:
                            ok = False
                        files.append({"id": bn + f, "ok": ok, "ro": (stat.S_IMODE(os.lstat(p).st_mode) & 0o222) == 0})
                    else:
                        other += 1
            e.update(files=files, other=other)
        elif op == "copy":
            out, v = call(db.stream_copy, iter([objs[k - 1]["id"] for k in e["os"]]), dbs[e["to"] - 1])
            e.update(out=out, n=num(v))
        elif op == "setred":
            j = e["j"]
            if j > 0:
                if j % 3 == 1:
                    s = Recorder()
                elif j % 3 == 2:
                    got = []
                    s = FlexibleSha1Writer(got.append)
                    s.got = got
                else:
                    s = ZippedStoreShaWriter()
                if j not in streams:
                    streams[j] = s
                arg = streams[j]
            else:
                arg = {0: None, -1: object(), -2: BytesIO()}[j]
            out, v = call(db.set_ostream, arg)
            e["out"] = out
            prev = [k for k, s in streams.items() if s is v] if out == "ok" and v is not None else [0]
            e["prev"] = prev[0] if prev else -9
            if out == "ok":
                red[e["d"] - 1] = max(j, 0)
        elif op == "ostream":
            out, v = call(db.ostream)
            k = [k for k, s in streams.items() if s is v] if v is not None else [0]
            e.update(out=out, v=k[0] if k else -9)
        ev.append(e)

    for e in job["hist"]:
        one(e)
        if enough():
            break
    # final sweep
    if not enough():
        for d in range(1, len(dbs) + 1):
            for o in range(1, len(objs) + 1):
                one({"op": "has", "d": d, "o": o})
                one({"op": r.choice(["info", "stream"]), "d": d, "o": o, "part": 0})
            one({"op": "iter", "d": d})
            one({"op": "size", "d": d})
        for k in range(1, job["nst"] + 1):
            if any(h["at"] == k and h["kind"] != "mem" for h in job["dbs"]):
                one({"op": "disk", "at": k})
    for j in streams.values():
        pass
    emit(cfg, ev, job.get("label", ""))
    shutil.rmtree(root, ignore_errors=True)


class _FS(FlexibleSha1Writer):
    __slots__ = ("got",)


FlexibleSha1Writer = _FS

for n, job in jobs():
    run(job, n)
