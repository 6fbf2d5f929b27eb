"""C02: processes storing loose objects under the control of the shim, step by step"""
import gc
import hashlib
import os
import shutil
import stat
import zlib
from io import BytesIO
from drv import *
import packlib as pl
import fsctl
from gitdb.base import IStream
from gitdb.db import LooseObjectDB, GitDB
from gitdb.util import bin_to_hex


class Look:
    """what is in the directory: everything below a two digit directory with a 38 digit name counts as an object"""

    def __init__(self, root, objs, owner):
        self.root, self.owner, self.cache, self.last = root, owner, {}, None
        self.code = {pl.oid(t, d).hex(): k + 1 for k, (t, d) in enumerate(objs)}

    def check(self, name, path):
        st = os.lstat(path)
        key = (path, st.st_ino, st.st_size, st.st_mtime_ns)
        v = self.cache.get(key)
        if v is None:
            try:
                with open(path, "rb") as f:
                    raw = f.read()
                d = zlib.decompressobj()
                x = d.decompress(raw)
                head, body = x.split(b"\0", 1)
                t, n = head.split(b" ")
                ok = d.eof and int(n) == len(body) and hashlib.sha1(x).hexdigest() == name
            except Exception:
                ok = False
            v = self.cache[key] = "right" if ok else "bad"
        return {"o": self.code.get(name, 0), "st": v, "ro": not st.st_mode & 0o222}

    def see(self):
        objs, tmps = [], []
        for dp, dn, fn in os.walk(self.root):
            for f in fn:
                rel = os.path.relpath(os.path.join(dp, f), self.root)
                a = rel.split("/")
                if len(a) == 2 and len(a[0]) == 2 and len(a[1]) == 38:
                    objs.append(self.check(a[0] + a[1], os.path.join(dp, f)))
                else:
                    tmps.append(self.owner.get(rel, 0))
        objs.sort(key=str)
        tmps.sort()
        now = (str(objs), str(tmps))
        chg = now != self.last
        self.last = now
        return {"chg": chg, "objs": objs if chg else [], "tmps": tmps if chg else []}


def count_fds():
    gc.collect()
    return len(os.listdir("/proc/self/fd"))


class Source:
    """a stream which fails (or ends too early) once that much was read"""

    def __init__(self, data, at, exc, report):
        self.b, self.left, self.exc, self.report = BytesIO(data), at, exc, report

    def read(self, n=-1):
        if n < 0 or n > self.left:
            self.report({"op": "source"})
            if self.exc is not None:
                raise self.exc
            n = self.left
        self.left -= n
        return self.b.read(n)


EXCS = [OSError("source"), ValueError("source"), zlib.error("source"), KeyboardInterrupt(), MemoryError(), StopIteration(), AssertionError(), None]


def worker(root, objs, prog, kind):
    """the calls of one process"""
    def fn(report):
        db = kind.get("db")
        if db is None:
            db = LooseObjectDB(root)
            db.stream_chunk_size = kind["chunk"]
        # the descriptors of a process are those of all of its threads
        fdcount = (lambda: 0) if kind.get("team") else count_fds
        for what, o, *src in prog:
            t, d = objs[o - 1]

            def source(data):
                if not src or (what == "copy" and EXCS[src[1]] is None):
                    return BytesIO(data)
                # (a store asks for as much as it announced)
                return Source(data, min(int(src[0] * len(data)), len(data) - 1), EXCS[src[1]], report) if data else BytesIO(data)
            sha = pl.oid(t, d)
            f0 = fdcount()
            report({"op": "begin", "what": what, "o": o})
            rec = {"op": "result", "what": what, "o": o, "id": False, "out": "ok"}
            try:
                if what == "store":
                    s = db.store(IStream(t, len(d), source(d)))
                    rec["id"] = s.hexsha == bin_to_hex(sha) and s.binsha == sha
                    del s
                elif what == "copy":
                    rec["what"] = "store"
                    z = pl.deflate(t + b" %d\0" % len(d) + d, level=kind["level"])
                    s = db.store(IStream(t, len(d), source(z), sha))
                    rec["id"] = s.binsha == sha
                    del s
                elif what == "has":
                    rec["out"], rec["id"] = ("found", True) if db.has_object(sha) else ("absent", False)
                elif what == "info":
                    i = db.info(sha)
                    rec["out"], rec["id"] = "found", (i.type, i.size) == (t, len(d))
                elif what == "iter":
                    got = set(db.sha_iter())
                    rec["out"], rec["id"] = ("found", True) if sha in got else ("absent", False)
                else:
                    v = db.stream(sha)
                    rec["out"], rec["id"] = "found", (v.type, v.size, v.read()) == (t, len(d), d)
                    del v
            except BaseException as e:
                w = exn(e)
                e.__traceback__ = None
                rec["out"] = "absent" if w == "BadObject" and what in ("has", "info", "stream", "iter") else w
                del e
            rec["fds"] = fdcount() - f0
            report(rec)
    return fn


def execute(r, objs, pre, progs, kinds, plan, label=""):
    """plan(pending processes, step number, children) -> (process, what); emits the trace, returns the number of steps of each process"""
    root = place("r%d" % execute.n)
    execute.n += 1
    os.mkdir(root)
    for o in pre:
        pl.write_loose(root, *objs[o - 1])
    owner = {}
    look = Look(root, objs, owner)
    cfg = {"n": len(progs), "pre": pre, "progs": str(progs), "kinds": str(kinds)}
    ev = []
    current(cfg, ev)
    if kinds[0].get("team"):
        if r.random() < .6:
            db = LooseObjectDB(root)
            db.stream_chunk_size = kinds[0]["chunk"]
            kinds = [dict(k, db=db) for k in kinds]
        ch = fsctl.team(range(1, len(progs) + 1), root, [worker(root, objs, progs[k], kinds[k]) for k in range(len(progs))])
    else:
        ch = [fsctl.Child(k + 1, root, worker(root, objs, progs[k], kinds[k])) for k in range(len(progs))]
    steps = [0] * len(progs)
    calls = [[] for _ in progs]

    def settle(c):
        for rec in c.wait():
            if rec["op"] == "harness":
                raise RuntimeError(rec["err"])
            if rec["op"] == "hang":
                rec = {"op": "result", "what": "store", "o": 0, "id": False, "out": "hang", "fds": 0}
            rec["p"] = c.p
            ev.append(rec)
    ev.append(dict({"op": "step", "p": 0, "call": "", "res": "go"}, **look.see()))
    for c in ch:
        settle(c)
    n = 0
    while any(not c.over for c in ch) and n < 3000:
        live = [c for c in ch if not c.over]
        p, what = plan([c.p for c in live], n, steps)
        c = ch[p - 1]
        call = c.pending
        steps[p - 1] += 1
        n += 1
        rel = os.path.relpath(call[1], root)
        if call[0] in ("create", "opencreate"):
            owner.setdefault(rel, p)
        if call[0] in ("rename", "link"):
            rel2 = os.path.relpath(call[2], root)
            owner.setdefault(rel2, owner.get(rel, p))
        a, num, word = fsctl.act(r, call, what)
        calls[p - 1].append(call[0])
        c.answer(a, num)
        mark = len(ev)
        settle(c)
        e = dict({"op": "step", "p": p, "call": call[0], "res": word}, **look.see())
        ev.insert(mark, e)
    for c in ch:
        c.kill()
    emit(cfg, ev, label)
    shutil.rmtree(root, ignore_errors=True)
    return steps, calls


execute.n = 0


def objects(r, sizes):
    out = []
    for z in sizes:
        while True:
            x = (r.choice(sorted(pl.TYPES)), pl.content(r, z, r.choice(["random", "text", "mixed"])))
            if x not in out:
                break
        out.append(x)
    return out


def run(job):
    r = rng("fsloose", job["n"])
    objs = objects(r, job["sizes"])
    kinds = [{"chunk": r.choice([1000, 4096, 4096000]), "level": r.choice([0, 1, 9]), "team": job.get("team", False)} for _ in job["progs"]]
    progs = job["progs"]

    def ex(plan):
        return execute(r, objs, job["pre"], progs, kinds, plan)

    def inorder(faults):
        """one process after the other; faults: {step of process 1: what}"""
        return lambda live, n, steps: (live[0], faults.get(steps[live[0] - 1] + 1, "go") if live[0] == 1 else "go")
    if job["kind"] == "faults":
        # a single process (or the first of several): every step fails in every way
        st, calls = ex(inorder({}))
        n = st[0]
        for k in range(1, n + 1):
            ws = ["err", "crash", "crash"] + (["short"] if calls[0][k - 1] == "write" else []) + (["late"] if calls[0][k - 1] in ("rename", "mkdir", "close", "chmod") else [])
            for w in ws:
                ex(inorder({k: w}))
        # a second fault soon after the first; everything of a kind fails from some step on
        for _ in range(job.get("double", 10)):
            k = r.randrange(1, n + 1)
            ex(inorder({k: r.choice(["err", "short", "late"]), k + r.randrange(1, 5): r.choice(["err", "crash", "late", "short"])}))
        for k in range(1, n + 1):
            c = calls[0][k - 1]
            if c in ("write", "mkdir", "create", "chmod", "close"):
                ex(lambda live, m, steps, k=k: (live[0], "err" if live[0] == 1 and steps[0] + 1 >= k and steps[0] - k < len(calls[0]) and calls[0][min(steps[0], n - 1)] == c else "go"))
    elif job["kind"] == "pairs":
        # two processes: every way of switching once or twice
        st, _ = ex(lambda live, n, steps: (live[0], "go"))
        n1, n2 = st[0], st[1]
        cuts = [(a, b) for a in range(n1 + 1) for b in range(n2 + 1)]
        if len(cuts) > job["max"]:
            cuts = r.sample(cuts, job["max"])
        for a, b in cuts:
            # 1 runs a steps, 2 runs b steps, 1 to its end, 2 to its end
            def plan(live, n, steps):
                if steps[0] < a and 1 in live:
                    return 1, "go"
                if steps[1] < b and 2 in live:
                    return 2, "go"
                return (1 if 1 in live else live[0]), "go"
            ex(plan)
    elif job["kind"] == "source":
        ex(inorder({}))
        for _ in range(4):
            ex(lambda live, m, steps: (r.choice(live), "go"))
        ex(inorder({r.randrange(1, 8): r.choice(["err", "short", "crash"])}))
    else:
        # schedules of the specification: [p, what]; afterwards all go on in turn
        for sched in job["scheds"]:
            q = list(sched)

            def plan(live, n, steps):
                while q:
                    p, w = q.pop(0)
                    if p in live:
                        return p, w
                return r.choice(live), "go"
            ex(plan)


for n, job in jobs():
    run(job)
