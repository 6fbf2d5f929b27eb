"""C04 / C05 / C06: chains of deltas written by the Delta specification, resolved by gitdb in every way it offers."""
import os
import shutil
import zlib
from drv import *
import packlib as pl
from gitdb.base import OPackStream, ODeltaPackStream
from gitdb.db import PackedDB, GitDB
from gitdb.fun import apply_delta_data, connect_deltas
from gitdb.pack import PackEntity
from gitdb.stream import DecompressMemMapReader, DeltaApplyReader
from gitdb.util import mman

limit(30)
TID = {"commit": 1, "tree": 2, "blob": 3, "tag": 4}

PROFILES = {
    "one": lambda r: 1,
    "small": lambda r: r.choice([1, 2, 3, 5, 9]),
    "mid": lambda r: r.choice([1, 63, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 600]),
    "k64": lambda r: r.choice([1, 0xfeff, 0xff00, 0xffff, 0x10000, 0x10000, 0x10001, 0x10100, 0x20000]),
    "m16": lambda r: r.choice([1, 0x10000, 0xfffeff, 0xffffff, 0x1000000, 0x1000001]),
    "huge": lambda r: r.choice([1, 0x10000, 0xffffff]),
}


class Bytes:
    """virtual source: random access over pieces, only what is asked for exists"""

    def __init__(self, units, cc):
        self.u, self.cc = units, cc

    def __getitem__(self, s):
        out = bytearray()
        pos = 0
        for u in self.u:
            n = self.cc.size(u)
            a, b = max(s.start, pos), min(s.stop, pos + n)
            if a < b:
                if b - a > 1 << 28:
                    raise MemoryError()
                out += self.cc.data(u)[a - pos:b - pos] if n <= 1 << 28 else b"\7" * (b - a)
            pos += n
        return bytes(out)


class Conc:
    """what units are concretely"""

    def __init__(self, r, profile, hugefirst=0):
        self.r, self.p, self.hugefirst = r, PROFILES[profile], hugefirst
        self.sz, self.dt, self.code, self.n1, self.n2 = {}, {}, {}, 0, 0

    def size(self, u):
        if u not in self.sz:
            n = self.hugefirst if self.hugefirst and u == 1 else self.p(self.r)
            if n == 1 and self.n1 >= 120:
                n = 2
            if n == 1:
                c = bytes([self.n1])
                self.n1 += 1
            else:
                c = bytes([128 + self.n2 // 256, self.n2 % 256])
                self.n2 += 1
            self.sz[u] = n
            self.code[c] = u
            if n < 1 << 28:
                fill = self.r.randbytes(n) if n < 100000 or self.r.random() < .3 else (self.r.randbytes(997) * (n // 997 + 1))[:n]
                self.dt[u] = (c + fill)[:n]
        return self.sz[u]

    def data(self, u):
        self.size(u)
        return self.dt[u]

    def bytes(self, us):
        return b"".join(self.data(u) for u in us)

    def decode(self, b):
        out = []
        i = 0
        b = bytes(b)
        while i < len(b):
            c = b[i:i + 1] if b[i] < 128 else b[i:i + 2]
            u = self.code.get(c)
            if u is None or b[i:i + len(self.dt[u])] != self.dt[u]:
                out.append(-1)
                break
            out.append(u)
            i += len(self.dt[u])
            if len(out) > self.cap:     # more than anything which could be right
                out.append(-1)
                break
        return out

    def pos(self, us, k, lvl):
        """byte position of unit k of a content; beyond its end there are imaginary units"""
        n = sum(self.size(u) for u in us[:k])
        for j in range(len(us), k):
            n += self.size(-(1000 * lvl + j) - 10)
        return n

    def unpos(self, us, n, lvl):
        for k in range(len(us) + 1):
            if self.pos(us, k, lvl) == n:
                return k
        return -1


def varint(n, r):
    v = bytearray(pl.varint(n))
    if r.random() < .15:
        v[-1] |= 0x80
        v += b"\x80" * r.choice([0, 1]) + b"\0"
    return bytes(v)


def enc_copy(off, n, r):
    out = b""
    while n:
        k = min(n, 0xffffff)
        if r.random() < .2 and k > 1:
            k = r.choice([1, k - 1, min(k, 0x10000), k // 2])
        out += pl.enc_copy(off, k, r.choice(["min", "min", "full", "long"]))
        off += k
        n -= k
    return out


def enc_insert(d, r):
    out = bytearray()
    i = 0
    while i < len(d):
        k = min(127, len(d) - i)
        if len(d) < 100000 and r.random() < .3:
            k = r.choice([1, k, max(1, k // 2)])
        out.append(k)
        out += d[i:i + k]
        i += k
    return bytes(out)


def encode(d, lvl, us, cc, r):
    """(delta bytes, content of units it produces)"""
    out = varint(cc.pos(us, d["src"], lvl), r)
    body = b""
    prod = []
    for c in d["cmds"]:
        if c["k"] == "c":
            a, b = cc.pos(us, c["off"], lvl), cc.pos(us, c["off"] + c["len"], lvl)
            body += enc_copy(a, b - a, r)
            prod += us[c["off"]:c["off"] + c["len"]]
        elif c["k"] == "i":
            body += enc_insert(cc.bytes(c["ins"]), r)
            prod += c["ins"]
        elif c["k"] == "r":
            body += b"\0"
        else:
            x = r.random()
            if x < .5:
                body += bytes([r.choice([0x81, 0x83, 0x8f, 0x91, 0xb1, 0xff, 0x90, 0xc0])])
                if body[-1] == 0xff:
                    body += b"\1" * r.randrange(6)
            else:
                k = r.choice([1, 2, 50, 127])
                body += bytes([k]) + b"\1" * r.randrange(k)
    out2 = out + varint(cc.pos(prod, d["dst"], lvl + 1), r)
    if d["cmds"] and d["cmds"][0]["k"] == "t" and r.random() < .4:
        # cut inside of the header already
        return r.choice([out, out + b"\x80", out + b"\xff\xff", out[:-1] + bytes([out[-1] | 0x80]), b"\x80"]), prod
    return out2 + body, prod


def readall(read, r, style):
    """(outcome, bytes returned so far)"""
    got = b""
    if style == "all":
        out, b = call(read)
        return out, b if out == "ok" else b""
    while True:
        out, b = call(read, r.choice([1, 7, 100, 512, 5000] if style == "tiny" else [512, 4096, 70000, 4096000]))
        if out != "ok":
            return out, got
        if not b:
            return "ok", got
        got += b
        if len(got) > 1 << 28:
            return "ok", got


def run(job, n):
    r = rng("delta", job["n"])
    cc = Conc(r, job["profile"], job.get("hugefirst", 0))
    case = job["case"]
    typ = r.choice(list(TID))
    cfg = {"base": case["base"], "chain": case["chain"], "type": typ}
    ev = []
    current(cfg, ev)
    us = list(case["base"])
    levels = [us]
    deltas = []
    for lvl, d in enumerate(case["chain"]):
        b, us = encode(d, lvl, us, cc, r)
        deltas.append(b)
        levels.append(us)
    top = levels[-1]
    cc.cap = 4 * max(len(x) for x in levels) + 200
    total = cc.pos(top, len(top), len(deltas))

    # the application routine alone, delta by delta
    if "apply" in job["via"]:
        src = Bytes(levels[0], cc) if job.get("hugefirst") else cc.bytes(levels[0])
        slen = cc.pos(levels[0], len(levels[0]), 0)
        out = "ok"
        got = b""
        for b in deltas:
            w = []

            def one():
                from gitdb.fun import msb_size
                i, s = msb_size(b)
                i, t = msb_size(b, i)
                rest = b[i:]
                apply_delta_data(src, slen, rest, len(rest), w.append)
            out, v = call(one)
            if out != "ok":
                break
            src = got = b"".join(bytes(x) for x in w)
            slen = len(src)
        ev.append({"op": "apply", "out": out, "units": cc.decode(got) if out == "ok" else []})

    if job.get("hugefirst"):
        emit(cfg, ev, job.get("label", ""))
        return
    basedata = cc.bytes(levels[0])

    def mem():
        z = {"level": r.choice([0, 1, 6])}
        s = [OPackStream(12, TID[typ], len(basedata), DecompressMemMapReader(pl.deflate(basedata, **z), False, len(basedata)))]
        for k, b in enumerate(deltas):
            s.insert(0, ODeltaPackStream(100 + k, 6, len(b), 5, DecompressMemMapReader(pl.deflate(b, **z) + b"xx", False, len(b))))
        return s

    def resolve(via, mk):
        e = {"op": "resolve", "via": via, "out": "ok", "units": [], "type": "", "size": -1}
        ev.append(e)
        out, st = call(mk)
        e["out"] = out
        if out != "ok":
            return
        if r.random() < .4:
            out, v = call(lambda: st.size)
        style = r.choice(["all", "all", "chunks", "tiny" if total < 3000 else "chunks"])
        if r.random() < .3:
            o, v = call(st.read, r.choice([1, 10, 1000]))
            if o == "ok":
                o2, _ = call(st.stream.seek if hasattr(type(st), "stream") else st.seek, 0)
        e["out"], got = readall(st.read, r, style)
        e["units"] = cc.decode(got)
        if e["out"] != "ok":
            # asking again must not reveal anything either
            o, b = call(st.read)
            if o == "ok" and b:
                e["units"] = e["units"] + cc.decode(b)
            return
        o, v = call(lambda: st.type)
        e["type"] = v.decode() if o == "ok" and isinstance(v, bytes) else str(v)
        o, v = call(lambda: st.size)
        e["size"] = cc.unpos(top, v, len(deltas)) if o == "ok" else -1

    if "mem" in job["via"]:
        resolve("mem", lambda: DeltaApplyReader.new(mem()))
    if "pack" in job["via"]:
        root = place("d%d" % job["n"])
        pk = os.path.join(root, "pack")
        os.makedirs(pk)
        ents = [pl.Entry("whole", basedata, pl.oid(typ.encode(), basedata), typ=typ.encode(), zopts={"level": r.choice([0, 1, 9])})]
        shas = [ents[0].sha]
        for k, b in enumerate(deltas):
            sha = r.randbytes(20) if job["flawed"] or r.random() < .2 else pl.oid(typ.encode(), cc.bytes(levels[k + 1]))
            if sha in shas:
                sha = r.randbytes(20)
            shas.append(sha)
            kind = r.choice(["ofs", "ref"])
            ents.append(pl.Entry(kind, b, sha, base=k if kind == "ofs" else shas[k], zopts={"level": r.choice([0, 1, 9])}))
            if r.random() < .4:
                ents[-1].pad = r.choice([0, 0, 1])
        # any order in which offset deltas follow their bases; others in between
        order = sorted(range(len(ents)), key=lambda k: r.random())
        done, seq = set(), []
        while order:
            for k in order:
                if ents[k].kind != "ofs" or ents[k].base in done:
                    seq.append(k)
                    done.add(k)
                    order.remove(k)
                    break
        perm = {k: i for i, k in enumerate(seq)}
        newents = [ents[k] for k in seq]
        for x in newents:
            if x.kind == "ofs":
                x.base = perm[x.base]
        path = pl.write_pack(pk, newents, version=r.choice([1, 2, 2]))
        how = r.choice(["entity", "packdb", "gitdb", "index"])

        def db():
            return PackEntity(path) if how in ("entity", "index") else PackedDB(pk) if how == "packdb" else GitDB(root)
        out, d = call(db)
        if out != "ok":
            ev.append({"op": "resolve", "via": how, "out": out, "units": [], "type": "", "size": -1})
        else:
            if how == "index":
                idx = sorted(x.sha for x in newents).index(shas[-1])
                info, strm = (lambda s: d.info_at_index(idx)), (lambda s: d.stream_at_index(idx))
            else:
                info, strm = d.info, d.stream
            for what in r.choice([["i", "s"], ["s", "i"]]):
                if what == "s":
                    resolve(how, lambda: strm(shas[-1]))
                else:
                    out, v = call(info, shas[-1])
                    e = {"op": "info", "via": how, "out": out, "type": "", "size": -1}
                    if out == "ok":
                        e["type"] = v.type.decode() if isinstance(v.type, bytes) else str(v.type)
                        e["size"] = cc.unpos(top, v.size, len(deltas))
                        del v
                    ev.append(e)
        d = None
        shutil.rmtree(root, ignore_errors=True)
        if n % 50 == 0:
            call(mman.collect)
    if "merge" in job["via"]:
        e = {"op": "merge", "via": "connect_deltas", "out": "ok", "units": [], "tiles": False, "total": -1, "check": ""}
        ev.append(e)
        e["out"], dcl = call(lambda: connect_deltas(mem()[:-1]))
        if e["out"] == "ok":
            w = []
            e["out"], v = call(lambda: dcl.apply(basedata, w.append))
            got = b"".join(bytes(x) for x in w)
            e["units"] = cc.decode(got) if e["out"] == "ok" else []
            at, ok = 0, True
            for c in dcl:
                ok = ok and c.to == at and c.ts > 0
                at += c.ts
            e["tiles"] = bool(ok and dcl.rbound() == at and dcl.lbound() == 0 and dcl.size() == at)
            e["total"] = cc.unpos(top, at, len(deltas))
            e["check"] = call(dcl.check_integrity, total)[0]
        slow = getattr(DeltaApplyReader, "_set_cache_too_slow_without_c", None)
        if slow is not None and r.random() < .5:
            class R(DeltaApplyReader):
                _set_cache_ = slow
            resolve("merging reader", lambda: R.new(mem()))
    emit(cfg, ev, job.get("label", ""))


for n, job in jobs():
    run(job, n)
