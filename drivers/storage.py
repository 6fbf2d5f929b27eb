"""C13 / C14 / C15: object directories changed as the Storage specification says, databases queried and refreshed."""
import hashlib
import os
import shutil
import stat
from io import BytesIO
from drv import *
import packlib as pl
from gitdb.base import IStream
from gitdb.db import PackedDB, LooseObjectDB, GitDB, MemoryDB, ReferenceDB
from gitdb.db.base import CompoundDB
from gitdb.util import mman

limit(20)
TYPES = [b"commit", b"tree", b"blob", b"tag"]
JUNK0 = 90


class Compound(CompoundDB):
    def __init__(self, parts):
        super().__init__()
        self._parts = parts

    def _set_cache_(self, attr):
        if attr == "_dbs":
            self._dbs = list(self._parts)
        else:
            super()._set_cache_(attr)


def tname(t):
    return t.decode("latin1") if isinstance(t, bytes) else "%s:%s" % (type(t).__name__, t)


def run(job):
    r = rng("storage", job["n"])
    top = place("j%d" % job["n"])
    os.mkdir(top)
    style = r.choice(["d%d", "d%d", "ob jects%d", "d\u00e9p\u00f4t%d"])
    dirs = {k: os.path.join(top, style % k) for k in range(1, job["nd"] + 1)}
    byroot = {os.path.realpath(p): k for k, p in dirs.items()}
    # objects and packs
    objs = []
    for k in range(job["no"]):
        d = pl.content(r, r.choice([0, 3, 40, 600, 5000]) if r.random() < .9 else 70000, r.choice(["random", "text", "zero"])) + b"%d" % k
        objs.append((r.choice(TYPES), d))
    sha = [pl.oid(t, d) for t, d in objs]
    unknown = r.randbytes(20)
    rank = {s: k + 1 for k, s in enumerate(sha)}
    names = {}
    for t, d in objs:
        names.setdefault(d, "c%d" % len(names))
    cfg = {"nd": job["nd"], "objs": [{"type": t.decode(), "size": len(d), "c": names[d]} for t, d in objs],
           "packs": job["packs"], "roots": job["roots"], "single": job["single"]}
    master = os.path.join(top, "master")
    os.mkdir(master)
    packname = {}
    for p, members in enumerate(job["packs"]):
        ents = []
        ms = list(members)
        r.shuffle(ms)
        for j, o in enumerate(ms):
            t, d = objs[o - 1]
            cand = [i for i in range(j) if objs[ms[i] - 1][0] == t]
            if cand and r.random() < .5:
                b = r.choice(cand)
                bd = objs[ms[b] - 1][1]
                cm = ([("c", 0, min(len(bd), 100))] if bd and d[:min(len(bd), 100)] == bd[:100] else []) or [("i", d)]
                if cm[0][0] == "c":
                    cm.append(("i", d[cm[0][2]:]))
                    cm = [c for c in cm if c[0] == "c" or c[1]]
                dl = pl.enc_delta(len(bd), len(d), cm)
                ents.append(pl.Entry("ofs", dl, sha[o - 1], base=b) if r.random() < .5 else pl.Entry("ref", dl, sha[o - 1], base=sha[ms[b] - 1]))
            else:
                ents.append(pl.Entry("whole", d, sha[o - 1], typ=t))
        path = pl.write_pack(master, ents, version=r.choice([1, 2, 2]), name=None if members else hashlib.sha1(b"%d" % p).hexdigest())
        packname[p + 1] = os.path.basename(path)[:-5]

    base_t = r.choice([1600000000, 1600000000, 1000])
    step = r.choice([1, 1, 0.01])
    mem = {}

    def pdir(d):
        return os.path.join(dirs[d], "pack")

    def stamp(d, mt):
        os.utime(pdir(d), (base_t + mt * step,) * 2)

    def put(d, p, suf):
        s = os.path.join(master, packname[p] + suf)
        t = os.path.join(pdir(d), packname[p] + suf)
        if r.random() < .5:
            shutil.copyfile(s, t + ".tmp")
            os.rename(t + ".tmp", t)
        else:
            os.link(s, t)

    def drop(d, p, suf):
        t = os.path.join(pdir(d), packname[p] + suf)
        if os.path.exists(t):
            os.unlink(t)

    def line(k):
        if 1 <= k <= job["nd"]:
            return dirs[k].encode()
        return {0: b"", 90: os.path.join(top, "nowhere").encode(), 91: b"# a comment", 92: os.path.join(master, packname[1] + ".pack").encode(),
                93: b"/\xff\xfe/objects", 94: b"  \t", 95: b"./nowhere/objects", 96: b"/nul\0/objects"}[k]

    def loosepath(d, o):
        h = sha[o - 1].hex()
        return os.path.join(dirs[d], h[:2], h[2:])

    def put_loose(d, o):
        t, c = objs[o - 1]
        if d in mem:
            mem[d].store(IStream(t, len(c), BytesIO(c)))
            return
        x = r.random()
        if x < .35 and holder.get('touched'):
            dbs = [b for b in live() if isinstance(b, (GitDB, LooseObjectDB)) and os.path.realpath(b.root_path()) == os.path.realpath(dirs[d])]
            if dbs:
                dbs[0].store(IStream(t, len(c), BytesIO(c)))
                return
        if x < .6:
            GitDB(dirs[d]).store(IStream(t, len(c), BytesIO(c)))
        else:
            pl.write_loose(dirs[d], t, c)

    def env(e):
        w, d, o = e["what"], e["d"], e["o"]
        if w == "loose+":
            put_loose(d, o)
        elif w == "loose-":
            p = loosepath(d, o)
            os.unlink(p)
            if r.random() < .5:
                try:
                    os.rmdir(os.path.dirname(p))
                except OSError:
                    pass
        elif w in ("pack+", "file+", "idx+"):
            sufs = {"pack+": [".idx", ".pack"] if r.random() < .5 else [".pack", ".idx"], "file+": [".pack"], "idx+": [".idx"]}[w]
            for s in sufs:
                put(d, o, s)
        elif w in ("pack-", "file-", "idx-"):
            for s in {"pack-": [".idx", ".pack"], "file-": [".pack"], "idx-": [".idx"]}[w]:
                drop(d, o, s)
        elif w == "repack":
            for s in (".pack", ".idx"):
                if not os.path.exists(os.path.join(pdir(d), packname[o] + s)):
                    put(d, o, s)
            for p in packname:
                if p != o:
                    drop(d, p, ".idx")
                    drop(d, p, ".pack")
        elif w == "mkpd":
            os.mkdir(pdir(d))
        elif w == "rmpd":
            shutil.rmtree(pdir(d))
        elif w == "mkdir":
            os.mkdir(dirs[d])
        elif w == "rmdir":
            shutil.rmtree(dirs[d])
        elif w == "alt":
            i = os.path.join(dirs[d], "info")
            os.makedirs(i, exist_ok=True)
            b = b"\n".join(line(k) for k in e["lines"]) + (b"\n" if r.random() < .8 else b"")
            if r.random() < .5:
                with open(os.path.join(i, "alternates"), "wb") as f:
                    f.write(b)
            else:
                with open(os.path.join(i, "alternates.new"), "wb") as f:
                    f.write(b)
                os.rename(os.path.join(i, "alternates.new"), os.path.join(i, "alternates"))
        elif w == "rmalt":
            os.unlink(os.path.join(dirs[d], "info", "alternates"))
        if w in ("pack+", "pack-", "file+", "file-", "idx+", "idx-", "repack", "touch", "mkpd"):
            stamp(d, e["mt"])

    for d in {1} | {x["d"] for x in job["roots"]}:
        os.mkdir(dirs[d])
        os.mkdir(pdir(d))
        stamp(d, 0)
    for x in job["roots"]:
        if x["t"] == "mem":
            mem[x["d"]] = MemoryDB()
    parts = []
    holder = {}

    def live():
        return parts

    def opn():
        del parts[:]
        for x in job["roots"]:
            d, t = x["d"], x["t"]
            parts.append(PackedDB(pdir(d)) if t == "packed" else LooseObjectDB(dirs[d]) if t == "loose" else mem[d] if t == "mem"
                         else GitDB(dirs[d]) if t == "git" else ReferenceDB(os.path.join(dirs[d], "info", "alternates")))
        holder["db"] = parts[0] if job["single"] else Compound(parts)
    ev = []
    current(cfg, ev)
    opn()

    def query(how, o):
        s = sha[o - 1] if o else unknown
        e = {"op": "q", "how": how, "o": o, "out": "", "type": "", "size": -1, "c": ""}
        db = holder["db"]

        def go():
            if how == "has":
                return db.has_object(s)
            if how == "in":
                return s in db
            if how == "info":
                v = db.info(s)
                e["type"], e["size"] = tname(v.type) if binsha(v) == s else "other-id", v.size
                return True
            if how == "stream":
                v = db.stream(s)
                b = v.read() if r.random() < .5 else v.read(v.size) if v.size else b""
                e["type"], e["size"], e["c"] = tname(v.type) if binsha(v) == s else "other-id", v.size, names.get(b, "other")
                return True
            h = s.hex()[:r.choice([10, 11, 20, 39, 40])]
            if isinstance(db, PackedDB):
                v = db.partial_to_complete_sha(bytes.fromhex(h + "0" * (len(h) % 2)), len(h))
            else:
                v = db.partial_to_complete_sha_hex(h)
            e["c"] = "same" if v == s else "other"
            return True
        out, v = call(go)
        e["out"] = ("found" if v is True else "BadObject" if v is False else "no-truth-value") if out == "ok" else out
        ev.append(e)

    def find_ref(db):
        if isinstance(db, ReferenceDB):
            return db
        for x in db.databases():
            if isinstance(x, ReferenceDB):
                return x

    def op(h):
        db = holder["db"]
        what = h["op"]
        if what == "end":
            return
        if what not in ("env", "open"):
            holder["touched"] = True
        if what == "env":
            env(h)
            ev.append({"op": "env", "what": h["what"], "d": h["d"], "o": h["o"], "mt": h["mt"], "lines": h["lines"]})
        elif what == "open":
            holder["touched"] = False
            opn()
            ev.append({"op": "open"})
        elif what == "refresh":
            if not hasattr(type(db), "update_cache"):
                return
            out, v = call(db.update_cache, h["force"]) if r.random() < .5 else call(db.update_cache, force=h["force"])
            ev.append({"op": "refresh", "force": h["force"], "out": out, "ret": bool(v) if out == "ok" else False})
        elif what == "q":
            hows = ["has", "in", "info", "stream", "hex"]
            if mem:
                hows.remove("hex")
            if h["how"] == "all":
                os_ = list(range(job["no"] + 1))
                r.shuffle(os_)
                for o in os_:
                    for hw in r.sample(hows, 2):
                        query(hw, o)
            else:
                query(h["how"] if h["how"] in hows else "has", h["o"])
        elif what == "burst":
            n = r.choice([30, 130, 499, 501, 700, 1400])
            cnt = {o: [0, 0, 0] for o in range(job["no"] + 1)}
            fav = r.sample(range(job["no"] + 1), min(3, job["no"] + 1))
            fn = r.choice(["has_object", "has_object", "info"])
            for _ in range(n):
                o = r.choice(fav) if r.random() < .6 else r.randrange(job["no"] + 1)
                out, v = call(getattr(db, fn), sha[o - 1] if o else unknown)
                yes = v is True if fn == "has_object" else out == "ok" and v.size == len(objs[o - 1][1])
                cnt[o][0 if out == "ok" and yes else 1 if (out == "ok" and v is False) or out == "BadObject" else 2] += 1
            ev.append({"op": "burst", "rs": [{"o": o, "yes": c[0], "no": c[1], "err": c[2]} for o, c in cnt.items() if sum(c)]})
        elif what == "size":
            out, v = call(db.size)
            ev.append({"op": "size", "out": out, "n": v if out == "ok" else -1})
        elif what == "enum":
            out, v = call(lambda: list(db.sha_iter()))
            cnt = [0] * job["no"]
            alien = 0
            for s in (v if out == "ok" else []):
                if s in rank:
                    cnt[rank[s] - 1] += 1
                else:
                    alien += 1
            ev.append({"op": "enum", "out": out, "cnt": cnt, "alien": alien})
        elif what == "parts":
            if job["roots"][0]["t"] not in ("git", "ref"):
                return

            def go():
                f = find_ref(parts[0])
                return [byroot.get(os.path.realpath(x.root_path()), 99) for x in f.databases()] if f is not None else []
            out, v = call(go)
            ev.append({"op": "parts", "out": out, "ds": v if out == "ok" else []})

    for h in job["hist"]:
        op(h)
        if enough():
            break
    # a final look at everything, once as it is and once after a refresh
    for h in ({"op": "q", "how": "all", "o": 0}, {"op": "refresh", "force": r.random() < .5}, {"op": "q", "how": "all", "o": 0}, {"op": "size"}, {"op": "enum"},
              {"op": "parts"}, {"op": "refresh", "force": True}, {"op": "parts"}, {"op": "size"}, {"op": "q", "how": "all", "o": 0}, {"op": "enum"}):
        if not enough():
            op(h)
    holder.clear()
    del parts[:]
    emit(cfg, ev, job.get("label", ""))
    shutil.rmtree(top, ignore_errors=True)
    if n % 20 == 19:
        call(mman.collect)


for n, job in jobs():
    run(job)
