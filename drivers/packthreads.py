"""C19: threads looking up objects in one packed database, under a scheduler which decides at every line (or
bytecode) of gitdb and smmap which thread goes on"""
import os
import shutil
import sys
import threading
from drv import *
import packlib as pl
from gitdb.db import PackedDB
from gitdb.util import mman
import smmap

ROOTS = (os.path.realpath(os.path.dirname(gitdb.__file__)) + "/", os.path.realpath(os.path.dirname(smmap.__file__)) + "/")
TRACED = {}


def traced(code):
    r = TRACED.get(code)
    if r is None:
        r = TRACED[code] = os.path.realpath(code.co_filename).startswith(ROOTS)
    return r


class Sched:
    """one thread at a time; plan: {thread: {nth step of it: thread to go on with}}"""

    def __init__(self, n, plan, ops):
        self.n, self.plan, self.ops = n, plan, ops
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.local = [0] * n
        self.steps = 0
        self.done = [False] * n

    def step(self, t):
        self.local[t] += 1
        self.steps += 1
        to = self.plan[t].get(self.local[t])
        if to is not None and to != t and not self.done[to]:
            self.sem[to].release()
            self.wait(t)

    def wait(self, t):
        while True:
            seen = self.steps
            if self.sem[t].acquire(timeout=.02):
                return
            if self.steps == seen:
                return      # whoever was to go on waits for us: go on

    def over(self, t):
        self.done[t] = True
        for x in range(self.n):
            if not self.done[x]:
                self.sem[x].release()
                return

    def tracer(self, t):
        ops = self.ops

        def local(frame, event, arg):
            if event == ("opcode" if ops else "line") or event == "return":
                self.step(t)
            return local

        def tr(frame, event, arg):
            if not traced(frame.f_code):
                return None
            if ops:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            self.step(t)
            return local
        return tr


class World:
    """packs on disk, several kinds of entries in each"""

    def __init__(self, key, npack, version):
        r = rng("world", key)
        self.dir = place("w%s" % key)
        os.mkdir(self.dir)
        self.objs = []          # (sha, type, content)
        for p in range(npack):
            a = pl.content(r, r.choice([40, 300, 3000]), "text")
            typ = r.choice(sorted(pl.TYPES))
            es = [pl.Entry("whole", a, pl.oid(typ, a), typ=typ)]
            self.objs.append((es[0].sha, typ, a))
            b = pl.content(r, r.choice([0, 1, 700]), "random") + bytes([p])
            es.append(pl.Entry("whole", b, pl.oid(b"blob", b), typ=b"blob"))
            self.objs.append((es[1].sha, b"blob", b))
            prev, base, bsha = a, 0, es[0].sha
            for k in range(2):
                n = len(prev)
                cmds = [("c", 0, n // 2), ("i", r.randbytes(5)), ("c", n // 3, n - n // 3)]
                data = pl.apply_cmds(prev, cmds)
                sha = pl.oid(typ, data)
                d = pl.enc_delta(n, len(data), cmds)
                es.append(pl.Entry("ofs", d, sha, base=base) if k == 0 else pl.Entry("ref", d, sha, base=bsha))
                self.objs.append((sha, typ, data))
                prev, base, bsha = data, len(es) - 1, sha
            pl.write_pack(self.dir, es, version=version)
        self.absent = [r.randbytes(20) for _ in range(3)]
        self.cfg = {"objs": [{"type": t.decode(), "size": len(d), "c": k + 1} for k, (s, t, d) in enumerate(self.objs)]}
        self.bydata = {(t, d): k + 1 for k, (s, t, d) in reversed(list(enumerate(self.objs)))}
        for k, (s, t, d) in enumerate(self.objs):
            self.cfg["objs"][k]["c"] = self.bydata[t, d]


def lookup(w, db, how, o):
    sha = w.objs[o - 1][0] if o > 0 else w.absent[-o]
    e = {"op": "lookup", "how": how, "o": max(o, 0), "out": "", "type": "", "size": -1, "c": 0}
    try:
        if how == "has":
            e["out"] = {True: "yes", False: "no"}.get(db.has_object(sha), "?")
        elif how == "partial":
            e["c"] = e["o"] if bytes(db.partial_to_complete_sha(sha[:10], 20)) == sha else -1
            e["out"] = "ok"
        elif how == "info":
            i = db.info(sha)
            e.update(out="ok", type=i.type.decode(), size=i.size)
        else:
            s = db.stream(sha)
            if how == "rest":
                d = b""
                while True:
                    x = s.read(64)
                    d += x
                    if not x:
                        break
            else:
                d = s.read()
            e.update(out="ok", type=s.type.decode(), size=s.size, c=w.bydata.get((s.type, bytes(d)), -1))
    except Hang:
        raise
    except BaseException as x:
        e["out"] = exn(x)
    return e


def fresh(w, warm, order, cold):
    """a database with its list of packs loaded, some lookups ago"""
    db = PackedDB(w.dir)
    db.entities()
    for k in range(warm):
        db.has_object(w.objs[order[k % len(order)] - 1][0])
    if not cold:
        for s, _, _ in w.objs:
            db.has_object(s)
    return db


def run(w, db, plans, lookups, ops):
    """-> events in the order in which lookups ended, number of steps of every thread"""
    n = len(lookups)
    sc = Sched(n, plans, ops)
    ev = []

    def body(t):
        sc.sem[t].acquire()
        sys.settrace(sc.tracer(t))
        try:
            for how, o in lookups[t]:
                e = lookup(w, db, how, o)
                e["t"] = t + 1
                ev.append(e)
        finally:
            sys.settrace(None)
            sc.over(t)
    ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
    for x in ts:
        x.start()
    sc.sem[0].release()
    hung = False
    for x in ts:
        x.join(30)
        hung = hung or x.is_alive()
    if hung:
        for t in range(n):
            if not sc.done[t]:
                ev.append({"op": "lookup", "how": "?", "o": 0, "out": "hang", "type": "", "size": -1, "c": 0, "t": t + 1})
    return ev, sc.local, hung


def bail(w, cfg, ev):
    """threads which do not come back cannot be ended: this is the last trace of this process"""
    emit(cfg, ev)
    os._exit(0)


def sched_job(job):
    """every place at which thread a is left for the others (one switch), or plans drawn at random"""
    r = rng("sched", job["n"])
    w = World(job["n"], job["npack"], job["version"])
    nobj = len(w.objs)
    order = [r.randrange(1, nobj + 1) for _ in range(7)]
    lk = []
    for t in range(job["nthread"]):
        q = []
        for k in range(job["per"]):
            how = r.choice(job["hows"])
            o = r.choice([0, -1]) if r.random() < .12 and how != "partial" else r.randrange(1, nobj + 1)
            q.append((how, o))
        lk.append(q)
    if job.get("same"):
        lk = [lk[0]] * len(lk)
    warm, cold, ops = job["warm"], job["cold"], job["ops"]
    cfg = dict(w.cfg, lookups=str(lk), warm=warm, cold=cold, ops=ops)
    seen = {}

    def go(plans):
        if cold:
            mman.collect()
        db = fresh(w, warm, order, cold)
        ev, local, hung = run(w, db, plans, lk, ops)
        if hung:
            bail(w, dict(cfg, plan=str(plans)), ev)
        k = str(sorted(map(str, ev)))
        if k not in seen:
            seen[k] = 1
            emit(dict(cfg, plan=str(plans)), ev)
        return local
    n = len(lk)
    solo = go([{} for _ in lk])
    done = 0
    if job["plan"] == "one":
        for t in range(n):
            # threads start in turn: let t run first
            ks = range(1, solo[t] + 1)
            if len(ks) > job["max"]:
                ks = sorted(r.sample(ks, job["max"]))
            for k in ks:
                p = [{} for _ in lk]
                p[t][k] = (t + 1) % n
                if t:
                    p[0][1] = t
                go(p)
                done += 1
    else:
        for _ in range(job["max"]):
            p = [{} for _ in lk]
            for _ in range(r.choice([2, 2, 3, 4, 8])):
                t = r.randrange(n)
                p[t][r.randrange(1, solo[t] + 2)] = r.choice([x for x in range(n) if x != t])
            go(p)
            done += 1
    shutil.rmtree(w.dir, ignore_errors=True)
    return done


def stress_job(job):
    """no scheduler: the interpreter switches as often as it can"""
    r = rng("stress", job["n"])
    w = World(job["n"], job["npack"], job["version"])
    nobj = len(w.objs)
    mman.collect()
    db = fresh(w, 0, [1], True)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    seen = {}
    bar = threading.Barrier(job["nthread"])

    def body(t):
        q = rng("stress", job["n"], t)
        bar.wait()
        for _ in range(job["per"]):
            e = lookup(w, db, q.choice(job["hows"]), q.choice([0, -1, -2]) if q.random() < .05 else q.randrange(1, nobj + 1))
            if e["how"] == "partial" and e["o"] == 0:
                continue
            e["t"] = t + 1
            seen.setdefault(str(e), e)
    ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(job["nthread"])]
    for x in ts:
        x.start()
    hung = False
    for x in ts:
        x.join(120)
        hung = hung or x.is_alive()
    sys.setswitchinterval(old)
    ev = list(seen.values())
    if hung:
        bail(w, w.cfg, ev + [{"op": "lookup", "how": "?", "o": 0, "out": "hang", "type": "", "size": -1, "c": 0, "t": 0}])
    for t in range(0, len(ev), 200):
        emit(w.cfg, ev[t:t + 200])
    shutil.rmtree(w.dir, ignore_errors=True)


for n, job in jobs():
    current({"objs": []}, [])
    (stress_job if job["kind"] == "stress" else sched_job)(job)
