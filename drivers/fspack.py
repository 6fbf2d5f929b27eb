"""C12: processes creating packs under the control of the shim, step by step, and databases reading them"""
import gc
import hashlib
import os
import shutil
import struct
import zlib
from io import BytesIO
from drv import *
import packlib as pl
import fsctl
from gitdb.base import IStream, OStream
from gitdb.db import PackedDB
from gitdb.pack import PackEntity
from gitdb.util import mman


def complete(path, news):
    """independent look at a pack and its index: complete, named after the checksum, all objects in it"""
    try:
        with open(path, "rb") as f:
            p = f.read()
        with open(path[:-5] + ".idx", "rb") as f:
            x = f.read()
        if hashlib.sha1(p[:-20]).digest() != p[-20:] or hashlib.sha1(x[:-20]).digest() != x[-20:] or x[-40:-20] != p[-20:]:
            return False
        if os.path.basename(path) != "pack-%s.pack" % p[-20:].hex():
            return False
        n = struct.unpack(">L", x[8 + 255 * 4:8 + 256 * 4])[0]
        ids = [x[1032 + 20 * k:1052 + 20 * k] for k in range(n)]
        return set(ids) == set(news) and struct.unpack(">L", p[8:12])[0] == n
    except Exception:
        return False


def look(db, objs, code, how, force=True):
    """refresh and read everything"""
    rec = {"how": how, "err": "", "found": [], "bad": False}
    try:
        if db is None:
            db = PackedDB(look.root)
        elif how != "fresh":
            db.update_cache(force=force)
        if db.size() > 10000:       # nonsense
            rec["bad"] = True
            return rec
        found = set(db.sha_iter())
        for s in sorted(found | set(code)):
            k = code.get(s)
            if k is None:
                rec["bad"] = True
                continue
            t, d = objs[k - 1]
            if db.has_object(s) != (s in found):
                rec["bad"] = True
            if s in found:
                i = db.info(s)
                v = db.stream(s)
                if (i.type, i.size, v.type, v.size, v.read()) != (t, len(d), t, len(d), d):
                    rec["bad"] = True
                del v, i
                rec["found"].append(k)
        if db.size() < len(rec["found"]):
            rec["bad"] = True
    except Exception as e:
        rec["err"] = exn(e)
        e.__traceback__ = None
    rec["found"].sort()
    return rec


def count_fds():
    gc.collect()
    return len(os.listdir("/proc/self/fd"))


class Broken:
    """a stream which ends early or raises"""

    def __init__(self, data, how):
        self.f, self.how = BytesIO(data[:len(data) // 2]), how

    def read(self, size=-1):
        if self.how == "raise":
            raise OSError("cannot read")
        return self.f.read(size)


def creator(root, objs, prog):
    mine = prog["objs"]

    def fn(report):
        # the descriptors of a process are those of all of its threads
        fdcount = (lambda: 0) if prog.get("team") else count_fds
        f0 = fdcount()
        report({"op": "begin", "what": "create"})
        rec = {"op": "result", "what": "create", "out": "ok", "name": False, "usable": False}
        ent = None
        try:
            def it():
                for n, k in enumerate(mine):
                    t, d = objs[k - 1]
                    if prog["bad"] == "iter" and n == len(mine) // 2:
                        raise OSError("no more")
                    if prog["bad"] in ("raise", "short") and n == len(mine) // 2:
                        yield OStream(pl.oid(t, d), t, len(d), Broken(d, prog["bad"]))
                    else:
                        yield OStream(pl.oid(t, d), t, len(d), BytesIO(d) if n % 2 else Trickle(random.Random(n), d))
            src = it() if prog["how"] == "iter" else list(it())
            n = len(mine) + (1 if prog["bad"] == "count" else 0) if prog["how"] == "iter" or prog["bad"] == "count" else None
            ent = PackEntity.create(src, root, object_count=n, zlib_compression=prog["level"])
        except BaseException as e:
            rec["out"] = exn(e)
            e.__traceback__ = None
            del e
        src = it = None
        rec["fds"] = fdcount() - f0
        # looking at the result is not part of the creation
        fsctl.LIB.shim_pause(1)
        if ent is not None:
            try:
                rec["name"] = complete(ent.pack().path(), [pl.oid(*objs[k - 1]) for k in mine])
                rec["usable"] = all((lambda s: (s.type, s.size, s.read()) == (objs[k - 1][0], len(objs[k - 1][1]), objs[k - 1][1]))
                                    (ent.stream(pl.oid(*objs[k - 1]))) for k in mine)
            except Exception:
                rec["usable"] = False
        report(rec)
    return fn


def reader(root, objs, code, n, keep):
    def fn(report):
        look.root = root
        db = PackedDB(root) if keep else None
        if keep:
            db.entities()
        for _ in range(n):
            report({"op": "begin", "what": "look"})
            x = look(db, objs, code, "refreshed" if keep else "fresh")
            report({"op": "result", "what": "look", "out": "ok", "seen": [x], "fds": 0})
    return fn


def execute(r, objs, packs, progs, plan):
    """packs: packs which are there at first, lists of objects; progs: dict(objs, how, bad, level) or dict(reads, keep)"""
    root = place("r%d" % execute.n)
    execute.n += 1
    os.mkdir(root)
    code = {pl.oid(t, d): k + 1 for k, (t, d) in enumerate(objs)}
    pre = sorted({k for x in packs for k in x})
    for x in packs:
        pl.write_pack(root, [pl.Entry("whole", objs[k - 1][1], pl.oid(*objs[k - 1]), typ=objs[k - 1][0]) for k in x])
    owner = {x: 0 for x in os.listdir(root)}
    look.root = root
    kept = PackedDB(root)
    lazy = PackedDB(root)
    kept.entities()
    last = [None, None]
    cfg = {"n": len(progs), "pre": pre, "news": [x.get("objs", []) for x in progs], "bad": [x.get("bad", "") != "" for x in progs], "progs": str(progs)[:500], "packs": str(packs)}
    ev = []
    current(cfg, ev)
    def action(x):
        return creator(root, objs, x) if "objs" in x else reader(root, objs, code, x["reads"], x["keep"])
    team = [k for k, x in enumerate(progs) if x.get("team")]
    ch = dict(zip(team, fsctl.team([k + 1 for k in team], root, [action(progs[k]) for k in team]))) if team else {}
    ch = [ch.get(k) or fsctl.Child(k + 1, root, action(x)) for k, x in enumerate(progs)]
    steps = [0] * len(progs)
    calls = [[] for _ in progs]

    def see(final=False):
        names = sorted(os.listdir(root))
        sig = [(x, os.stat(os.path.join(root, x)).st_size, os.stat(os.path.join(root, x)).st_ino) for x in names if x.endswith((".pack", ".idx"))]
        hidden = [x for x in names if not (x.endswith((".pack", ".idx")) and x[:-4].rstrip(".") + ".idx" in names and x.rsplit(".", 1)[0] + ".pack" in names)]
        seen = []
        if sig != last[0] or final or r.random() < .02:
            last[0] = sig
            seen = [look(None, objs, code, "fresh"), look(kept, objs, code, "refreshed")]
            if final:
                seen.append(look(lazy, objs, code, "fresh"))
        files = sorted({owner.get(x, 0) for x in hidden})
        chg = files != last[1]
        last[1] = files
        return {"seen": seen, "chg": chg, "files": files if chg else []}

    def settle(c):
        for rec in c.wait(60):
            if rec["op"] == "harness":
                raise RuntimeError(rec["err"])
            if rec["op"] == "hang":
                rec = {"op": "result", "what": "create", "out": "hang", "fds": 0}
            rec["p"] = c.p
            ev.append(rec)
    ev.append(dict({"op": "step", "p": 0, "call": "", "res": "go"}, **see()))
    for c in ch:
        settle(c)
    n = 0
    while any(not c.over for c in ch) and n < 20000:
        live = [c for c in ch if not c.over]
        p, what = plan([c.p for c in live], n, steps, {c.p: c.pending[0] for c in live})
        c = ch[p - 1]
        call = c.pending
        steps[p - 1] += 1
        n += 1
        if "objs" not in progs[p - 1] or (what == "late" and call[0] == "rename"):
            what = "go"
        rel = os.path.relpath(call[1], root)
        if call[0] in ("create", "opencreate"):
            owner.setdefault(rel, p)
        if call[0] in ("rename", "link"):
            owner.setdefault(os.path.relpath(call[2], root), p)
        a, num, word = fsctl.act(r, call, what)
        calls[p - 1].append(call[0])
        c.answer(a, num)
        mark = len(ev)
        settle(c)
        ev.insert(mark, dict({"op": "step", "p": p, "call": call[0], "res": word}, **see()))
    ev.append(dict({"op": "step", "p": 0, "call": "", "res": "go"}, **see(True)))
    for c in ch:
        c.kill()
    # most steps change nothing to be seen
    ev = [x for k, x in enumerate(ev) if not (x["op"] == "step" and x["res"] == "go" and not x["seen"] and not x["chg"])]
    emit(cfg, ev, "")
    del kept, lazy
    gc.collect()
    try:
        mman.collect()
    except Exception:
        pass
    shutil.rmtree(root, ignore_errors=True)
    return steps, calls


execute.n = 0


def objects(r, n, least=0):
    out = []
    while len(out) < n:
        x = (r.choice(sorted(pl.TYPES)), pl.content(r, max(least, r.choice([0, 1, 30, 300, 3000, 20000])), r.choice(["random", "text", "mixed"])))
        if x not in out:
            out.append(x)
    return out


def run(job):
    r = rng("fspack", job["n"])
    progs = job["progs"]
    objs = objects(r, job["nobj"], 30 if any(x.get("bad") for x in progs) else 0)
    packs = job["packs"]

    def ex(plan):
        return execute(r, objs, packs, progs, plan)

    def inorder(faults):
        def plan(live, n, steps, call):
            p = live[-1 if job.get("last") else 0]
            return p, faults.get(steps[p - 1] + 1, "go") if p == 1 else "go"
        return plan
    if job["kind"] == "faults":
        st, calls = ex(inorder({}))
        # every call but only some of the many writes
        ks = [k for k in range(1, st[0] + 1) if calls[0][k - 1] != "write"]
        ws = [k for k in range(1, st[0] + 1) if calls[0][k - 1] == "write"]
        if len(ws) > job["writes"]:
            ws = sorted(set(ws[:2] + ws[-2:] + r.sample(ws, job["writes"] - 4)))
        for k in ks + ws:
            for w in ["err", "crash"] + (["short"] if k in ws else ["crash"]):
                ex(inorder({k: w}))
        for a in ks if job.get("last") else []:
            for b in ks:
                if a < b:
                    ex(inorder({a: "err", b: r.choice(["err", "err", "crash"])}))
        for _ in range(job["double"]):
            k = r.choice(ks + ws)
            ex(inorder({k: r.choice(["err", "short"]), k + r.randrange(1, 6): r.choice(["err", "crash", "short"])}))
    elif job["kind"] == "plain":
        ex(lambda live, n, steps, call: (live[0], "go"))
    elif job["kind"] == "readers":
        # a reader begins at every interesting step of the creation, and stops for the rest of it at every one of its own
        st, calls = ex(lambda live, n, steps, call: (live[0], "go"))
        ks = [k for k in range(1, st[0] + 1) if calls[0][k - 1] not in ("write",)]
        ks = sorted({j for k in ks for j in (k - 1, k)})
        cuts = [(a, b) for a in ks for b in range(0, st[1] + 3)]
        if len(cuts) > job["max"]:
            cuts = r.sample(cuts, job["max"])
        for a, b in cuts:
            a2 = r.choice([0, 1, 2, 3, 10000])

            def plan(live, n, steps, call):
                # 1 runs a steps, 2 runs b steps, 1 runs a2 more, 2 to its end, 1 to its end
                if 1 in live and steps[0] < a:
                    return 1, "go"
                if 2 in live and steps[1] < b:
                    return 2, "go"
                if 1 in live and steps[0] < a + a2:
                    return 1, "go"
                return (2 if 2 in live else live[0]), "go"
            ex(plan)
    else:
        # schedules of the specification: [p, what]; each word of it goes on to the next call that is not one of the many writes
        for sched in job["scheds"]:
            q = list(sched)
            burst = [0, 0]

            def plan(live, n, steps, call):
                if burst[1] > 0 and burst[0] in live and call[burst[0]] in ("write", "read"):
                    burst[1] -= 1
                    return burst[0], "go"
                while q:
                    p, w = q.pop(0)
                    if p in live:
                        burst[:] = [p, r.choice([3, 200, 1000])]
                        return p, w
                return r.choice(live), "go"
            ex(plan)


for n, job in jobs():
    run(job)
