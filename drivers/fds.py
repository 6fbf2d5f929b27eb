"""C20: histories of calls on databases; descriptors are counted after each; the shim makes file-system calls fail"""
import gc
import os
import shutil
import zlib
from io import BytesIO
from drv import *
import packlib as pl
import fsctl
from gitdb.base import IStream
from gitdb.db import LooseObjectDB, PackedDB, GitDB
from gitdb.util import bin_to_hex
from gitdb.stream import FDCompressedSha1Writer, Sha1Writer, ZippedStoreShaWriter


class Src:
    """data of a store; may fail half way"""

    def __init__(self, data, fails):
        self.f, self.fails, self.n = BytesIO(data), fails, 0

    def read(self, size=-1):
        self.n += 1
        if self.fails and self.n > 1:
            raise OSError("cannot read")
        return self.f.read(min(size, max(1, self.n and 3000)) if self.fails else size)


DAMAGE = ["empty", "garbage", "cut", "header", "short", "dir", "type"]


def damage(how, t, d, r):
    """what is in the file of a damaged loose object"""
    z = pl.deflate(t + b" %d\0" % len(d) + d, level=1)
    return {"empty": b"", "garbage": r.randbytes(50), "cut": z[:r.randrange(1, len(z))], "header": pl.deflate(b"nothing at all"),
            "short": pl.deflate(t + b" %d\0" % (len(d) + 100) + d), "type": pl.deflate(b"what %d\0" % len(d) + d)}.get(how)


def classify(root, base):
    loose = packed = other = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith(root + "/pack"):
            packed += 1
        elif p == root or p.startswith(root + "/"):
            loose += 1
        else:
            other += 1
    return loose, packed, other - base


def build(r, root, kind, job):
    """objects: code -> (sha, type, data, where)"""
    os.makedirs(root + "/pack")
    objs = {}
    for k in range(4):
        t, d = r.choice(sorted(pl.TYPES)), pl.content(r, r.choice([0, 5, 300, 9000, 60000]), "mixed") + b"%d" % k
        pl.write_loose(root, t, d)
        objs["l%d" % k] = (pl.oid(t, d), t, d, "loose")
    for how in DAMAGE:
        t, d = b"blob", pl.content(r, 3000, "random") + how.encode()
        s = pl.oid(t, d)
        h = s.hex()
        os.makedirs(os.path.join(root, h[:2]), exist_ok=True)
        p = os.path.join(root, h[:2], h[2:])
        x = damage(how, t, d, r)
        if x is None:
            os.mkdir(p)
        else:
            with open(p, "wb") as f:
                f.write(x)
        objs["d" + how] = (s, t, d, "loose")
    for k in range(3):
        t, d = b"blob", b"missing %d %d" % (k, r.randrange(10 ** 6))
        objs["m%d" % k] = (pl.oid(t, d), t, d, "none")
    for k in range(2):
        add_pack(r, root, objs, k)
    return objs


def add_pack(r, root, objs, k):
    es = []
    base = pl.content(r, 4000, "text")
    for j in range(4):
        if j in (1, 2) and r.random() < .7:
            cmds = [("c", 0, 1000), ("i", b"%d %d" % (k, j))]
            d = pl.apply_cmds(base, cmds)
            es.append(pl.Entry("ofs", pl.enc_delta(len(base), len(d), cmds), pl.oid(b"blob", d), base=0))
        else:
            d = base if j == 0 else pl.content(r, r.choice([10, 3000]), "random")
            es.append(pl.Entry("whole", d, pl.oid(b"blob", d), typ=b"blob", zopts={}))
        objs["p%d%d" % (k, j)] = (pl.oid(b"blob", d), b"blob", d, "packed")
    path = pl.write_pack(root + "/pack", es)
    if r.random() < .3:
        # the last entry is damaged
        e = es[-1]
        os.chmod(path, 0o644)
        with open(path, "r+b") as f:
            f.seek((e.offset + e.end) // 2)
            f.write(b"\xff\xff\xff")


def history(root, kind, objs, hist, seed, npacks):
    def fn(report):
        import random
        r = random.Random(seed)
        ldb = {"loose": LooseObjectDB, "packed": None, "git": GitDB}[kind]
        db = ldb(root) if ldb else PackedDB(root + "/pack")
        known = npacks
        gc.collect()
        # streams have to go with their last reference, the collector may come late or never
        gc.disable()
        base = classify(root, 0)[2]
        handles = {}
        made = 0
        by = {}
        for k, v in objs.items():
            by.setdefault(k[0], []).append(k)

        def pick(x, what):
            if kind == "packed" or (kind == "git" and what[0] == "p"):
                c = r.choice("pppppm")
            else:
                c = r.choice("llldddm")
            return r.choice(by[c])
        for what, x in hist:
            rec = {"op": "call", "what": what, "out": "ok", "h": x, "where": "", "packs": known}
            key = ""
            try:
                if what in ("info", "pinfo"):
                    key = pick(x, what)
                    rec["what"] = "info"
                    db.info(objs[key][0])
                elif what in ("stream", "pstream"):
                    key = pick(x, what)
                    rec["what"] = "stream"
                    rec["where"] = objs[key][3]
                    h = min(set(range(1, 100)) - set(handles))
                    s = db.stream(objs[key][0])
                    handles[h] = s
                    rec["h"] = h
                    s = None
                elif what in ("store", "copy"):
                    t, d = r.choice([(b"blob", b"new %d" % r.randrange(10 ** 9) + r.randbytes(r.choice([0, 10, 5000]))), objs[r.choice(by["l"])][1:3]])
                    bad = r.random() < .3
                    how = r.choice(["", "", "", "size", "ostream"])
                    if how == "ostream" and kind != "packed":
                        db.set_ostream(r.choice([Sha1Writer, ZippedStoreShaWriter])() if r.random() < .7 else FDCompressedSha1Writer(os.open("/dev/null", os.O_WRONLY)))
                        try:
                            db.store(IStream(t, len(d), Src(d, bad)))
                        finally:
                            o = db.set_ostream(None)
                            if isinstance(o, FDCompressedSha1Writer):
                                o.close()
                            o = None
                    elif what == "store":
                        db.store(IStream(t, len(d) + (5 if how == "size" else 0), Src(d, bad)))
                    else:
                        db.store(IStream(t, len(d), Src(pl.deflate(t + b" %d\0" % len(d) + d), bad), pl.oid(t, d)))
                elif what == "has":
                    db.has_object(objs[r.choice(sorted(objs))][0])
                elif what == "iter":
                    c = r.random()
                    if c < .4:
                        list(db.sha_iter())
                    elif c < .6:
                        db.size()
                    elif kind == "loose":
                        db.partial_to_complete_sha_hex(bin_to_hex(objs[r.choice(sorted(objs))][0])[:8].decode())
                    elif kind == "packed":
                        s = objs[r.choice(sorted(objs))][0]
                        db.partial_to_complete_sha(s[:4], 8)
                    else:
                        db.partial_to_complete_sha_hex(bin_to_hex(objs[r.choice(sorted(objs))][0])[:8].decode())
                elif what == "refresh":
                    if kind != "loose":
                        db.update_cache(force=r.random() < .7)
                elif what == "newpack":
                    made += 1
                    known += 1
                    fsctl.LIB.shim_off()
                    add_pack(r, root, objs, 10 + made)
                    by["p"] = [k for k in objs if k[0] == "p"]
                    fsctl.LIB.shim_on(root.encode(), *report.fds)
                elif what == "verify":
                    if kind != "loose":
                        dbs = [db] if kind == "packed" else [q for q in db.databases() if isinstance(q, PackedDB)]
                        for q in dbs:
                            for e in q.entities():
                                e.is_valid_stream(objs[r.choice(by["p"])][0], use_crc=r.random() < .5)
                                sum(1 for _ in e.info_iter())
                else:
                    h = sorted(handles)[x % len(handles)] if handles else 0
                    rec["h"] = h
                    if what == "read" and h:
                        handles[h].read(*r.choice([(), (1,), (1000,), (0,)]))
                    elif what == "close" and h:
                        # a closed stream is still there to be dropped
                        handles[h].stream.close() if r.random() < .5 or not hasattr(handles[h], "close") else handles[h].close()
                    elif what == "drop" and h:
                        del handles[h]
            except BaseException as e:
                rec["out"] = exn(e)
                e.__traceback__ = None
                del e
                # errors may refer to themselves
                gc.collect()
            rec["packs"] = known
            rec["loose"], rec["packed"], rec["other"] = classify(root, base)
            rec["key"] = key
            report(rec)
        for h in sorted(handles):
            del handles[h]
            rec = {"op": "call", "what": "drop", "out": "ok", "h": h, "where": "", "packs": known, "key": ""}
            rec["loose"], rec["packed"], rec["other"] = classify(root, base)
            report(rec)
    return fn


def execute(r, job, plan):
    root = place("r%d" % execute.n)
    execute.n += 1
    os.mkdir(root)
    objs = build(r, root, job["db"], job)
    cfg = {"dbs": 1, "db": job["db"]}
    ev = []
    current(cfg, ev)
    fn = history(root, job["db"], objs, job["hist"], r.randrange(10 ** 9), 2)
    c = fsctl.Child(1, root, fn)

    def settle():
        for rec in c.wait(60):
            if rec["op"] == "harness":
                raise RuntimeError(rec["err"])
            if rec["op"] == "hang":
                rec = {"op": "call", "what": "any", "out": "hang", "h": 0, "where": "", "packs": 2, "loose": 0, "packed": 0, "other": 0, "key": ""}
            ev.append(rec)
    settle()
    n = 0
    while not c.over:
        what = plan(n, c.pending)
        n += 1
        a, num, word = fsctl.act(r, c.pending, what)
        c.answer(a, num)
        settle()
    emit(cfg, ev, "")
    shutil.rmtree(root, ignore_errors=True)
    return n


execute.n = 0


def run(job):
    r = rng("fds", job["n"])
    if job["faults"] == 0:
        execute(r, job, lambda n, c: "go")
    elif job["faults"] == "each":
        # the same history with each call of it failing once
        seed = r.randrange(10 ** 9)
        import random
        n = execute(random.Random(seed), job, lambda n, c: "go")
        for k in range(n):
            execute(random.Random(seed), job, lambda m, c: r.choice(["err", "err", "late", "short"]) if m == k else "go")
    else:
        execute(r, job, lambda n, c: r.choice(["err", "late", "short"]) if r.random() < job["faults"] else "go")


for n, job in jobs():
    run(job)
