"""C24: programs of queries, refreshes and outside changes; the shim makes chosen system calls of them fail"""
import errno
import gc
import os
import random
import shutil
from drv import *
import packlib as pl
import fsctl
from gitdb.db import LooseObjectDB, PackedDB, GitDB, ReferenceDB
from gitdb.util import mman

NOBJ = 6
SEES = {"packed": {2, 3}, "loose": {1}, "git": {1, 2, 3, 4, 5}, "ref": {4, 5}}
FAIL = {"openread", "opendir", "stat", "mmap", "read"}


def fds(top):
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + fd).startswith(top + "/")
        except OSError:
            pass
    return n


def program(top, kind, objs, sha, hist, seed):
    def fn(report):
        r = random.Random(seed)
        base = os.path.join(top, "objects")
        db = {"packed": lambda: PackedDB(base + "/pack"), "loose": lambda: LooseObjectDB(base), "git": lambda: GitDB(base),
              "ref": lambda: ReferenceDB(base + "/info/alternates")}[kind]()
        code = {s: k for k, s in enumerate(sha)}        # 0: in nobody's storage
        held = []
        for w, x, f in hist:
            if w in ("change", "gone", "back"):
                report({"op": "sync", "w": w, "x": x})
                try:
                    os.stat(os.path.join(top, ".sync"))
                except OSError:
                    pass
                continue
            if w == "q":
                o = x % (NOBJ + 1) if x <= NOBJ else 0
                how = r.choice(["has", "has", "info", "stream", "stream", "partial", "ids", "in"])
                if how == "ids":
                    e = {"op": "ids", "v": []}
                else:
                    e = {"op": "q", "how": how, "o": o, "v": "no"}
            else:
                e = {"op": "refresh"}
            if e["op"] == "refresh" and not hasattr(db, "update_cache"):
                continue
            report({"op": "begin", "f": f})

            def go():
                if e["op"] == "refresh":
                    db.update_cache(force=w == "force")
                    return
                if e["op"] == "ids":
                    e["v"] = sorted({code.get(bytes(s), 99) for s in db.sha_iter()})
                    return
                s = sha[o]
                t, d = objs[o]
                if how in ("has", "in"):
                    e["v"] = "yes" if (db.has_object(s) if how == "has" else s in db) else "no"
                elif how == "info":
                    i = db.info(s)
                    e["v"] = "yes" if (binsha(i), i.type, i.size) == (s, t, len(d)) else "wrong"
                elif how == "stream":
                    i = db.stream(s)
                    if r.random() < .3:
                        b = i.read()
                    else:
                        b, n = b"", r.choice([1000, 7000])
                        while True:
                            y = i.read(n)
                            if not y:
                                break
                            b += y
                    e["v"] = "yes" if (binsha(i), i.type, i.size, b) == (s, t, len(d), d) else "wrong"
                    if r.random() < .2:
                        held.append(i)
                    if len(held) > 2:
                        held.pop(0)
                else:
                    h = s.hex()[:r.choice([12, 13, 40])]
                    if kind == "packed":
                        v = db.partial_to_complete_sha(bytes.fromhex(h + "0" * (len(h) % 2)), len(h))
                    elif hasattr(db, "partial_to_complete_sha_hex"):
                        v = db.partial_to_complete_sha_hex(h)
                    e["v"] = "yes" if bytes(v) == s else "wrong"
            e["out"], v = call(go)
            if isinstance(v, BaseException):
                v.__traceback__ = v.__context__ = v.__cause__ = None
            del v
            report(e)
        fsctl.LIB.shim_off()
        del held[:]
        db = None
        gc.collect()
        call(mman.collect)
        gc.collect()
        report({"op": "end", "out": "ok", "fds": fds(top)})
    return fn


def run(job):
    r = rng("readfault", job["n"])
    top = place("f%d" % job["n"])
    obj, alt, away = (os.path.join(top, x) for x in ("objects", "alt", "away"))
    for p in (obj + "/pack", obj + "/info", alt + "/pack", alt + "/info", away):
        os.makedirs(p)
    objs, sha, at = [], [], []
    while len(objs) < NOBJ + 1:
        t, d = r.choice(sorted(pl.TYPES)), pl.content(r, r.choice([0, 3, 200, 5000, 20000]), r.choice(["random", "text", "mixed"])) + b"%d" % len(objs)
        objs.append((t, d))
        sha.append(pl.oid(t, d))
        # objects 1 to 5 are in the part of their number, perhaps elsewhere, too
        k = len(at)
        at.append(set() if k == 0 else ({k} if k <= 5 else {r.randrange(1, 6)}) | ({r.randrange(1, 6)} if r.random() < .3 else set()))
    files = {p: [] for p in range(1, 6)}
    for p, rt in ((1, obj), (4, alt)):
        for k, a in enumerate(at):
            if p in a:
                pl.write_loose(rt, *objs[k])
                files[p].append(os.path.join(rt, sha[k].hex()[:2], sha[k].hex()[2:]))
    for p, rt in ((2, obj), (3, obj), (5, alt)):
        es = []
        for k, a in enumerate(at):
            if p in a:
                es.append(pl.Entry("whole", objs[k][1], sha[k], typ=objs[k][0]))
        x = pl.write_pack(rt + "/pack", es, version=r.choice([1, 2]), name=r.randbytes(20).hex())
        files[p] = [x[:-5] + ".idx", x]
    alts = os.path.join(obj, "info", "alternates")
    with open(alts, "w") as f:
        f.write(alt + "\n")
    there = set(files)
    line = [True]
    clock = [1000000000]

    def touch():
        for p in (obj + "/pack", alt + "/pack"):
            clock[0] += 2
            if os.path.isdir(p):
                os.utime(p, (clock[0], clock[0]))
    touch()
    kind = job["kind"]
    alien = r.random() < .3

    def has():
        v = {p for p in there & SEES[kind] if p < 4 or line[0]}
        return [k for k in range(NOBJ + 1) if at[k] & v]

    def change(w, x):
        if w == "change":
            if x == 4 and r.random() < .5:
                line[0] = not line[0]
                with open(alts, "w") as f:
                    f.write(alt + "\n" if line[0] else r.choice(["", "\n", "/nowhere\n"]))
                touch()
                return
            for f in files[x]:
                y = os.path.join(away, "%d-%s" % (x, os.path.basename(f)))
                if x in there:
                    os.rename(f, y)
                else:
                    os.rename(y, f)
            there.symmetric_difference_update({x})
            touch()
        elif w == "gone":
            os.rename(obj, obj + ".away")
        else:
            os.rename(obj + ".away", obj)
    cfg = {"has": has(), "kind": kind, "hist": str(job["hist"])}
    ev = []
    current(cfg, ev)
    # the shim's root is the whole of it
    c = fsctl.Child(1, top, program(top, kind, objs, sha, job["hist"], r.random()))
    st = {"f": 0, "k": 0, "hit": False, "gone": False, "sync": None}

    def take(recs):
        for rec in recs:
            if rec["op"] == "harness":
                raise RuntimeError(rec["err"])
            if rec["op"] == "hang":
                ev.append({"op": "q", "how": "program", "o": 0, "v": "no", "out": "hang", "fault": ""})
            elif rec["op"] == "begin":
                st.update(f=rec["f"], k=0, hit=False)
            elif rec["op"] == "sync":
                st.update(sync=(rec["w"], rec["x"]), f=0)
            else:
                rec["fault"] = "call" if st["hit"] else "gone" if st["gone"] else ""
                st["f"] = 0
                ev.append(rec)
    take(c.wait(60))
    n = 0
    while not c.over and n < 20000:
        n += 1
        call_ = c.pending
        if st["sync"] and call_[0] == "stat" and call_[1].endswith("/.sync"):
            w, x = st["sync"]
            st["sync"] = None
            if w == "change" and not st["gone"]:
                change(w, x)
                ev.append({"op": "change", "has": has()})
            elif w == "gone" and not st["gone"] or w == "back" and st["gone"]:
                change(w, x)
                st["gone"] = w == "gone"
                ev.append({"op": w})
            c.answer("g")
        else:
            what = "go"
            if alien and call_[0] == "openread" and call_[2] == "noatime":
                # the kernel allows that to the owner of a file only; the database has to do without it
                c.answer("e", errno.EPERM)
                take(c.wait(60))
                continue
            if st["f"] and call_[0] in FAIL:
                st["k"] += 1
                k, rest = st["f"] if isinstance(st["f"], list) else ((st["f"] + 1) // 2 + r.choice([0, 0, 0, 2, 5]), st["f"] % 2 == 0)
                if st["k"] == k or (rest and st["k"] > k):
                    what = "err"
                    st["hit"] = True
            a, num, word = fsctl.act(r, call_, what)
            c.answer(a, num)
        take(c.wait(60))
    c.kill()
    if not ev or ev[-1]["op"] != "end":
        ev.append({"op": "lost"})
    emit(cfg, ev, kind)
    shutil.rmtree(top, ignore_errors=True)


for n, job in jobs():
    run(job)
