"""C25: objects in damaged files, read in the ways the specification chose. What can be had from the damaged bytes is decoded independently."""
import hashlib
import shutil
import struct
import zlib
from drv import *
import packlib as pl
from gitdb import IStream
from gitdb.db import LooseObjectDB, PackedDB, GitDB, MemoryDB
from gitdb.pack import PackEntity
from gitdb.util import mman

limit(20.0)
NAMES = {1: b"commit", 2: b"tree", 3: b"blob", 4: b"tag"}


def inflated(raw):
    """every byte which can be decoded, whatever comes then"""
    d, out = zlib.decompressobj(), bytearray()
    try:
        for k in range(len(raw)):
            out += d.decompress(raw[k:k + 1])
            if d.eof:
                break
    except zlib.error:
        pass
    return bytes(out)


def loose_truth(raw, sane=True):
    p = inflated(raw)
    k = p.find(b"\0", 0, 8192)
    if k < 0:
        return None
    t, _, n = p[:k].partition(b" ")
    if not n.isdigit():
        return None
    return t, int(n), p[k + 1:]


class Pack:
    """what the bytes of a pack and the offsets of an index say"""

    def __init__(self, raw, offs):
        self.raw, self.offs = raw, offs

    def head(self, o):
        """type id, size, base, start of the data; None if there is none"""
        raw = self.raw
        if len(raw) < 12:
            return None
        try:
            i = o
            c = raw[i]
            i += 1
            tid, n, sh = (c >> 4) & 7, c & 15, 4
            while c & 0x80:
                c = raw[i]
                i += 1
                n |= (c & 0x7f) << sh
                sh += 7
            base = None
            if tid == pl.OFS:
                c = raw[i]
                i += 1
                d = c & 0x7f
                while c & 0x80:
                    c = raw[i]
                    i += 1
                    d = ((d + 1) << 7) + (c & 0x7f)
                base = o - d
                if not 12 <= base < o:
                    return None
            elif tid == pl.REF:
                b = raw[i:i + 20]
                i += 20
                base = self.offs.get(b)
                if len(b) < 20 or base is None:
                    return None
            elif tid not in NAMES:
                return None
            return tid, n, base, i
        except IndexError:
            return None

    def root(self, o, seen):
        """type of the object at the end of the chain"""
        while o not in seen:
            h = self.head(o)
            if h is None:
                return None
            if h[0] in NAMES:
                return NAMES[h[0]]
            seen, o = seen + (o,), h[2]
        return None

    def truth(self, o, seen=()):
        h = self.head(o)
        if h is None or o in seen:
            return None
        tid, n, base, i = h
        p = inflated(self.raw[i:])[:n]
        if tid in NAMES:
            return NAMES[tid], n, p
        t = self.root(base, seen + (o,))
        if t is None:
            return None
        b = self.truth(base, seen + (o,)) or (t, 0, b"")
        sizes, i = [], 0
        for _ in (0, 1):
            v = sh = 0
            while True:
                if i >= len(p):
                    return None
                c = p[i]
                i += 1
                v |= (c & 0x7f) << sh
                sh += 7
                if not c & 0x80:
                    break
            sizes.append(v)
        size = sizes[1]
        if len(p) < n or len(b[2]) < b[1] or sizes[0] != b[1]:
            return t, size, b""
        out = bytearray()
        while i < len(p):
            c = p[i]
            i += 1
            if c & 0x80:
                off = ln = 0
                for k in range(7):
                    if c & (1 << k):
                        if i >= len(p):
                            return t, size, b""
                        if k < 4:
                            off |= p[i] << (8 * k)
                        else:
                            ln |= p[i] << (8 * (k - 4))
                        i += 1
                ln = ln or 0x10000
                if off + ln > len(b[2]):
                    return t, size, b""
                out += b[2][off:off + ln]
            elif c:
                if i + c > len(p):
                    return t, size, b""
                out += p[i:i + c]
                i += c
            else:
                return t, size, b""
            if len(out) > size:
                return t, size, b""
        return (t, size, bytes(out)) if len(out) == size else (t, size, b"")


def fds(top):
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + fd).startswith(top + "/")
        except OSError:
            pass
    return n


def place_of(r, n, where):
    """a position among n: where tells how it is chosen"""
    if isinstance(where, int):
        return where % n if where >= 0 else max(0, n + where)
    return {"any": lambda: r.randrange(n), "early": lambda: r.randrange(min(n, 30)), "late": lambda: n - 1 - r.randrange(min(n, 12)),
            "page": lambda: min(n - 1, r.choice([4095, 4096, 4097, 8191, 8192, 8200]))}[where]()


def flipped(r, raw, k):
    x = bytearray(raw)
    x[k] ^= 1 << r.randrange(8) if r.random() < .7 else r.randrange(1, 256)
    return bytes(x)


def harm_loose(r, t, d, how, where):
    z = dict(level=r.choice([0, 1, 6, 9]), strategy=r.choice([0, 0, 1, 2, 3]))
    if r.random() < .2:
        z["flush_every"] = r.choice([50, 3000])
    h = t + b" %d\0" % len(d)
    raw = pl.deflate(h + d, **z)
    n = len(d)
    if how == "none":
        return raw
    if how == "cut":
        return raw[:place_of(r, len(raw), where)]
    if how == "flip":
        return flipped(r, raw, place_of(r, len(raw), where))
    if how == "zeros":
        k = place_of(r, len(raw), where)
        return raw[:k] + b"\0" * (len(raw) - k)
    if how == "trail":
        return raw + r.choice([b"\0", b"garbage", r.randbytes(5000), raw])
    if how == "plain":
        return h + d
    if how == "junk":
        return r.randbytes(r.choice([1, 2, 20, 5000]))
    hd = {"more": b"%d" % (n + r.choice([1, 2, 7, 100, 4096, 70000])), "less": b"%d" % max(0, n - r.choice([1, 2, 7, 100, 4096])), "neg": b"-%d" % n, "plus": b"+%d" % n,
          "hex": b"0x%x" % n, "under": b"1_0", "blank": b" %d" % n, "none2": b"", "float": b"%d.0" % n, "huge": r.choice([b"9" * 30, b"%d" % (1 << 62), b"%d" % (1 << 40)])}
    if how in hd:
        return pl.deflate(t + b" " + hd[how] + b"\0" + d, **z)
    if how == "nonul":
        return pl.deflate(t + b" %d" % n + r.choice([b"", b"x" * 9000, d.replace(b"\0", b"0")]), **z)
    if how == "nospace":
        return pl.deflate(t + b"%d\0" % n + d, **z)
    if how == "type":
        return pl.deflate(r.choice([b"blub", b"x" * 300, b"BLOB"]) + b" %d\0" % n + d, **z)
    if how == "long":
        return pl.deflate(t + b" " + b"0" * 9000 + b"%d\0" % n + d, **z)
    raise ValueError(how)


def run(job):
    r = rng("damaged", job["n"])
    top = place("dm%d" % job["n"])
    root = os.path.join(top, "objects")
    for p in ("pack", "info"):
        os.makedirs(os.path.join(root, p))
    store = job["store"]
    sha, files, truth, plain = [], [], [], []
    ev = []
    big = r.choice([1, 1, 1, 8])

    def fresh():
        while True:
            t = r.choice(sorted(pl.TYPES))
            d = pl.content(r, r.choice([0, 1, 5, 60, 600, 4000, 9000]) * r.choice([1, big]), r.choice(["random", "text", "zero", "mixed", "runs"])) + b"%d" % len(sha) * (r.random() < .8)
            s = pl.oid(t, d)
            if s not in sha:
                return t, d, s
    if store == "loose":
        for how, where in job["dam"]:
            t, d, s = fresh()
            raw = harm_loose(r, t, d, how, where)
            p = os.path.join(root, s.hex()[:2])
            os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, s.hex()[2:]), "wb") as f:
                f.write(raw)
            sha.append(s)
            v = loose_truth(raw)
            truth.append(v)
            plain.append((t, d))
    else:
        n = len(job["dam"])
        data, kinds, bases = [], [], []
        for k in range(n):
            t, d, s = fresh()
            kind = "whole" if k == 0 or r.random() < .4 else r.choice(["ofs", "ref"])
            b = r.randrange(k) if k else None
            if kind != "whole":
                t, bd = plain[b]
                cmds = []
                for _ in range(r.randrange(1, 5)):
                    if bd and r.random() < .6:
                        o = r.randrange(len(bd))
                        cmds.append(("c", o, min(len(bd) - o, r.choice([1, 9, 700, 60000]))))
                    else:
                        cmds.append(("i", r.randbytes(r.choice([1, 5, 300, 2000]))))
                d = pl.apply_cmds(bd, cmds)
                s = pl.oid(t, d)
                if s in sha:
                    cmds.append(("i", b"%d-%d" % (k, job["n"])))
                    d = pl.apply_cmds(bd, cmds)
                    s = pl.oid(t, d)
                st = pl.enc_delta(len(bd), len(d), cmds)
            else:
                st = d
            sha.append(s)
            plain.append((t, d))
            data.append(st)
            kinds.append(kind)
            bases.append(b)
        order = list(range(n))
        if r.random() < .5:
            # references may point forwards
            pos = {k: (r.random() if kinds[k] == "ref" and not any(kinds[j] == "ofs" and bases[j] == k for j in range(n)) else 1 + k) for k in order}
            order.sort(key=lambda k: pos[k])
        out = bytearray(struct.pack(">4sLL", b"PACK", 2, n))
        offs, zoff, end = {}, {}, {}
        cut = None
        z = [dict(level=r.choice([0, 1, 6, 9]), strategy=r.choice([0, 0, 1, 2, 3])) for _ in range(n)]
        for k in order:
            how, where = job["dam"][k]
            offs[sha[k]] = o = len(out)
            decl = len(data[k])
            if how == "more":
                decl += r.choice([1, 2, 7, 100, 4096, 70000])
            elif how == "less":
                decl = max(0, decl - r.choice([1, 2, 7, 100, 4096]))
            elif how == "huge":
                decl = r.choice([1 << 40, 1 << 70, 1 << 62])
            if kinds[k] == "whole":
                h = pl.obj_header(pl.TYPES[plain[k][0]] if how != "type" else r.choice([0, 5]), decl)
            elif kinds[k] == "ofs":
                h = pl.obj_header(pl.OFS, decl) + pl.ofs_encode(o - offs[sha[bases[k]]])
            else:
                h = pl.obj_header(pl.REF, decl) + sha[bases[k]]
            out += h
            zoff[k] = len(out)
            raw = pl.deflate(data[k], **z[k])
            if how == "flip":
                for _ in range(50):
                    y = flipped(r, raw, place_of(r, len(raw), where))
                    v = inflated(y)[:12]
                    # results of gigabytes aren't worth the time
                    if kinds[k] == "whole" or not any(c & 0x80 for c in v[2:8]) or len(v) < 8:
                        raw = y
                        break
                else:
                    how = "none"
            elif how == "zeros":
                j = place_of(r, len(raw), where)
                raw = raw[:j] + b"\0" * (len(raw) - j)
            elif how == "gone":
                raw = raw[:place_of(r, len(raw), where)]       # the next entry follows at once
            elif how == "cut":
                cut = min(cut if cut is not None else 1 << 60, o + place_of(r, len(h) + len(raw), where))
            out += raw
            end[k] = len(out)
        out += hashlib.sha1(bytes(out)).digest()
        if cut is not None:
            out = out[:cut]
        if r.random() < .1 and "cut" in [d[0] for d in job["dam"]]:
            out = out[:r.choice([0, 3, 11, 12, 13])]
        for k in range(n):
            if job["dam"][k][0] == "lost":
                # the index tells another place
                offs[sha[k]] = r.choice([len(out), len(out) + 1, len(out) - 1, len(out) + 5000, 1 << 31, 1 << 40, 0, 4, 8])
        path = os.path.join(root, "pack", "pack-%s.pack" % r.randbytes(20).hex())
        with open(path, "wb") as f:
            f.write(out)
        with open(path[:-5] + ".idx", "wb") as f:
            f.write(pl.build_index([(sha[k], 1, offs[sha[k]]) for k in range(n)], bytes(out[-20:]).rjust(20, b"\0"), 2))
        pk = Pack(bytes(out), offs)
        truth = [pk.truth(offs[s]) for s in sha]
    ok = []
    for k in range(len(sha)):
        v = truth[k]
        ok.append(v is not None and (v[0], v[2]) == plain[k] and v[1] == len(v[2]))
    if store == "loose":
        ok = [x and job["dam"][k][0] == "none" for k, x in enumerate(ok)]
    else:
        def clean(k):
            o = offs[sha[k]]
            return (job["dam"][k][0] in ("none", "cut") and ok[k] and end[k] <= len(out) and (kinds[k] == "whole" or clean(bases[k])))
        ok = [clean(k) for k in range(len(sha))]
    big_ = 1 << 60
    cfg = {"store": store, "dam": str(job["dam"]), "objs": [{
        "hdr": v is not None, "t": v[0].decode("latin-1") if v else "", "n": min(v[1], 1 << 30) if v else 0,
        "real": min(len(v[2]), v[1]) if v else 0, "intact": bool(ok[k])} for k, v in enumerate(truth)]}
    current(cfg, ev)
    way = r.choice({"loose": ["loose", "git"], "packed": ["packed", "git", "entity"]}[store])
    db = {"loose": lambda: LooseObjectDB(root), "git": lambda: GitDB(root), "packed": lambda: PackedDB(os.path.join(root, "pack")),
          "entity": lambda: PackEntity(path)}[way]()
    code = {s: k + 1 for k, s in enumerate(sha)}
    streams = []
    dest_n = [0]

    def tn(i):
        t = i.type
        t = t.decode("latin-1") if isinstance(t, bytes) else str(t)
        return t, min(i.size, 1 << 30)

    def open_(k):
        i = db.stream(sha[k])
        return i, tn(i)

    def read(k, pos, i, n):
        return i.read(n) if n or r.random() < .5 else i.read()
    for w, x in job["hist"]:
        if enough():
            break
        k = r.randrange(len(sha))
        v = None
        if w == "info":
            o_, v = call(lambda: tn(db.info(sha[k])))
            ev.append({"op": "info", "o": k + 1, "out": o_, "t": v[0] if o_ == "ok" else "", "n": v[1] if o_ == "ok" else 0})
        elif w == "open":
            o_, v = call(lambda: open_(k))
            if o_ == "ok":
                streams.append([k, 0, v[0]])
            ev.append({"op": "open", "o": k + 1, "out": o_, "t": v[1][0] if o_ == "ok" else "", "n": v[1][1] if o_ == "ok" else 0})
        elif w == "read" and streams:
            j = len(streams) - 1 if r.random() < .8 else r.randrange(len(streams))
            s = streams[j]
            k = s[0]
            n = 0 if x == 0 else r.choice({1: [1, 2, 7, 8, 9, 20], 2: [100, 511, 1000, 3000], 3: [4096, 8191, 8192, 20000], 4: [1 << 20, 1 << 31]}[x])
            o_, v = call(lambda: s[2].read(n) if n else s[2].read() if r.random() < .7 else s[2].read(-1))
            e = {"op": "read", "s": j + 1, "n": n if n < 1 << 31 else (1 << 31) - 1, "out": o_, "got": 0, "right": False}
            if o_ == "ok":
                e["got"] = len(v)
                e["right"] = truth[k] is not None and bytes(v) == truth[k][2][:truth[k][1]][s[1]:s[1] + len(v)]
                s[1] += len(v)
            ev.append(e)
        elif w == "rewind" and streams:
            j = len(streams) - 1
            s = streams[j]
            o_, v = call(lambda: s[2].stream.seek(0))
            if o_ == "ok":
                s[1] = 0
            ev.append({"op": "rewind", "s": j + 1, "out": o_})
        elif w == "ids":
            if way == "entity":
                o_, v = call(lambda: [bytes(i.binsha) for i in [db.info(y) for y in sha[:0]]] and [] or [bytes(db.index().sha(y)) for y in range(db.index().size())])
            else:
                o_, v = call(lambda: [bytes(y) for y in db.sha_iter()])
            ev.append({"op": "ids", "out": o_, "v": [code.get(y, 99) for y in v] if o_ == "ok" else []})
        elif w == "copy":
            dest_n[0] += 1
            dest = os.path.join(top, "dest%d" % dest_n[0])
            os.makedirs(dest)
            to = r.choice(["loose", "memory", "pack", "packwrite"])
            v = truth[k]
            want = (v[0], v[2][:v[1]]) if v else None
            mem = MemoryDB()

            def go():
                i = db.stream(sha[k])
                if to == "loose":
                    return LooseObjectDB(dest).store(IStream(i.type, i.size, i)).binsha
                if to == "memory":
                    return mem.store(IStream(i.type, i.size, i)).binsha
                if to == "pack":
                    return PackEntity.create([i], dest)
                with open(os.path.join(dest, "p"), "wb") as f, open(os.path.join(dest, "i"), "wb") as g:
                    return PackEntity.write_pack([i], f.write, g.write)
            o_, v = call(go)
            found = []
            if to == "memory":
                for y in mem.sha_iter():
                    q = mem.stream(y)
                    found.append((bytes(y), q.type, q.read()))
            elif to == "packwrite":
                # what was written before the failure is the caller's
                if o_ == "ok":
                    with open(os.path.join(dest, "p"), "rb") as f:
                        b = f.read()
                    q = Pack(b, {}).truth(12)
                    found.append((None, q[0], q[2]) if q and len(q[2]) == q[1] else None)
            else:
                for dp, _, fs in os.walk(dest):
                    for f in fs:
                        with open(os.path.join(dp, f), "rb") as g:
                            b = g.read()
                        if f.endswith(".idx") and to == "pack" and o_ == "ok":
                            continue
                        if to == "loose":
                            q = loose_truth(b)
                            found.append((bytes.fromhex(os.path.basename(dp) + f) if len(f) == 38 else b"", q[0], q[2]) if q and len(q[2]) == q[1] else None)
                        else:
                            q = Pack(b, {}).truth(12)
                            found.append((None, q[0], q[2]) if q and len(q[2]) == q[1] else None)
            if not found:
                there = "no"
            elif o_ != "ok":
                there = "debris"
            else:
                there = "right" if want and len(found) == 1 and found[0] and found[0][1:] == want and found[0][0] in (None, pl.oid(*want)) else "wrong"
            ev.append({"op": "copy", "o": k + 1, "to": to, "out": o_, "there": there})
            mem = None
        if isinstance(v, BaseException):
            v.__traceback__ = v.__context__ = v.__cause__ = None
        v = None
    i = s = None
    del streams[:]
    db = None
    gc.collect()
    call(mman.collect)
    gc.collect()
    ev.append({"op": "end", "fds": fds(top)})
    emit(cfg, ev, store)
    shutil.rmtree(top, ignore_errors=True)


for n, job in jobs():
    if enough():
        break
    run(job)
