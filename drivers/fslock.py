"""C16: lock files used by processes under the control of the shim, step by step"""
import gc
import os
import shutil
import sys
from drv import *
import fsctl
from gitdb.util import LockedFD

sys.unraisablehook = lambda *a: None


def fdcount():
    gc.collect()
    return len(os.listdir("/proc/self/fd"))


def worker(root, prog, insts):
    """prog: [inst, what, arg]; insts: the instances of this process"""
    path = os.path.join(root, "file")

    def fn(report):
        base = fdcount()
        inst, fds, held = {}, {}, set()
        for p in insts:
            inst[p] = LockedFD(path)
        for p, what, arg in prog:
            if p not in inst:
                continue
            report({"op": "begin", "p": p, "what": what, "arg": arg})
            rec = {"op": "result", "p": p, "what": what, "out": "ok", "stream": False}
            try:
                if what in ("openw", "openr"):
                    f = inst[p].open(what == "openw", stream=bool(arg))
                    fds[p] = (f, bool(arg))
                    held.add(p)
                elif what == "commit":
                    inst[p].commit()
                elif what == "rollback":
                    inst[p].rollback()
                elif what == "drop":
                    del inst[p]
                elif what == "write":
                    rec["stream"] = False
                    if p in held:
                        f, st = fds[p]
                        rec["stream"] = st
                        if st:
                            f.write(bytes.fromhex(arg))
                        else:
                            os.write(f, bytes.fromhex(arg))
                    else:
                        rec["out"] = "none"
                elif what == "read":
                    if p in held:
                        f, st = fds[p]
                        no = f.fileno() if st else f
                        os.lseek(no, 0, 0)
                        k = os.fstat(no).st_size // -arg + 1 if arg else 1000000
                        out = b""
                        if st and arg == 0:
                            out = f.read()
                        else:
                            while 1:
                                x = f.read(k) if st else os.read(f, k)
                                if not x:
                                    break
                                out += x
                        rec["data"] = out.hex()
                    else:
                        rec["out"] = "none"
            except BaseException as e:
                rec["out"] = exn(e)
                e.__traceback__ = None
                del e
            if what in ("commit", "rollback", "drop"):
                held.discard(p)
            f = None
            rec["fds"] = fdcount() - base - len(held)
            report(rec)
        # what is still there is dropped now
        for p in sorted(inst):
            report({"op": "begin", "p": p, "what": "drop", "arg": 0})
            del inst[p]
            held.discard(p)
            report({"op": "result", "p": p, "what": "drop", "out": "ok", "stream": False, "fds": fdcount() - base - len(held)})
    return fn


def execute(r, procs, progs, cont, foreign, plan):
    """procs[p - 1]: the process of instance p; progs: per process; plan(live processes, n, steps) -> (process, what)"""
    root = place("r%d" % execute.n)
    execute.n += 1
    os.mkdir(root)
    path, lock = os.path.join(root, "file"), os.path.join(root, "file.lock")
    ids = {b"": 1}

    def ident(x):
        return 0 if x is None else ids.setdefault(x, len(ids) + 1)
    if cont is not None:
        with open(path, "wb") as f:
            f.write(cont)
    n = len(procs)
    keep, inodes = [], {}
    aged = r.random() < .3      # much time passes between any two steps
    if foreign:
        with open(lock, "wb") as f:
            f.write(b"x")
        inodes[os.stat(lock).st_ino] = n + 1
        if aged:
            os.utime(lock, (10 ** 9, 10 ** 9))
    cfg = {"n": n, "proc": procs, "empty": 1, "cont": ident(cont), "lock": n + 1 if foreign else 0, "progs": str(progs)[:600]}
    ev = []
    current(cfg, ev)
    acc = {p: b"" for p in range(1, n + 1)}
    cur = {}            # process -> instance
    wr = {}             # instance -> [bytes asked for, accepted so far]
    np = max(procs)
    ch = [fsctl.Child(k + 1, root, worker(root, progs[k], [p for p in range(1, n + 1) if procs[p - 1] == k + 1])) for k in range(np)]
    steps = [0] * np
    calls = [[] for _ in range(np)]

    def see(p):
        try:
            with open(path, "rb") as f:
                c = f.read()
        except FileNotFoundError:
            c = None
        o = 0
        try:
            fd = os.open(lock, os.O_RDONLY)     # kept open, so that no number is used twice
            i = os.fstat(fd).st_ino
            if i in inodes:
                os.close(fd)
            else:
                keep.append(fd)
                inodes[i] = p
            o = inodes[i]
            if aged:
                os.utime(lock, (10 ** 9, 10 ** 9))
        except FileNotFoundError:
            pass
        return {"cont": ident(c), "lock": o}

    def settle(c):
        for rec in c.wait():
            if rec["op"] == "harness":
                raise RuntimeError(rec["err"])
            if rec["op"] == "hang":
                rec = {"op": "result", "p": cur.get(c.p, 1), "what": "read", "out": "hang", "fds": 0, "stream": False}
            p = rec["p"]
            if rec["op"] == "begin":
                cur[c.p] = p
                if rec["what"] == "write":
                    wr[p] = [bytes.fromhex(rec["arg"]), 0]
                rec["arg"] = str(rec["arg"])[:20]
            else:
                st = rec.pop("stream")
                rec["c"] = 0
                if rec["what"] == "write" and rec["out"] != "none":
                    d, k = wr[p]
                    acc[p] += d if st and rec["out"] == "ok" else d[:k]
                    rec["c"] = ident(acc[p])
                elif rec["what"] == "read" and rec["out"] == "ok":
                    rec["c"] = ident(bytes.fromhex(rec.pop("data")))
            ev.append(rec)
    for c in ch:
        settle(c)
    m = 0
    while any(not c.over for c in ch) and m < 2000:
        live = [c.p for c in ch if not c.over]
        k, what = plan(live, m, steps)
        c = ch[k - 1]
        call = c.pending
        p = cur[k]
        steps[k - 1] += 1
        m += 1
        if what == "late" and call[0] == "rename":
            what = "err"
        a, num, word = fsctl.act(r, call, what)
        if call[0] == "write" and word in ("go", "short") and p in wr:
            wr[p][1] += call[3] if word == "go" else num
        calls[k - 1].append(call[0])
        c.answer(a, num)
        mark = len(ev)
        settle(c)
        ev.insert(mark, dict({"op": "step", "p": p, "call": call[0], "res": word}, **see(p)))
    for c in ch:
        c.kill()
    for fd in keep:
        os.close(fd)
    emit(cfg, ev, "")
    shutil.rmtree(root, ignore_errors=True)
    return steps, calls


execute.n = 0
DATA = [b"", b"a", b"new content\n", b"x" * 5000, b"y" * 70000]


def fill(r, prog):
    """arguments for the calls"""
    out = []
    for p, what in prog:
        if what == "write":
            arg = (b"%d %d;" % (p, r.randrange(10 ** 6)) + r.choice(DATA)).hex() if r.random() < .9 else ""
        elif what == "read":
            arg = r.choice([0, 0, -1, -3])     # all at once, or in so many pieces
        elif what in ("openw", "openr"):
            arg = r.choice([0, 1])
        else:
            arg = 0
        out.append([p, what, arg])
    return out


def run(job):
    r = rng("fslock", job["n"])
    procs = job["procs"]
    progs = [fill(r, x) for x in job["progs"]]
    cont = None if job["absent"] else b"old" + r.choice(DATA)
    if job.get("small"):
        cont = None if job["absent"] else b"old content"

    def ex(plan):
        return execute(r, procs, progs, cont, job.get("foreign", False), plan)

    def inorder(faults):
        return lambda live, n, steps: (live[0], faults.get(steps[live[0] - 1] + 1, "go") if live[0] == 1 else "go")
    if job["kind"] == "faults":
        st, calls = ex(inorder({}))
        n = st[0]
        for k in range(1, n + 1):
            for w in ["err", "crash", "crash"] + (["short"] if calls[0][k - 1] == "write" else []):
                ex(inorder({k: w}))
        for _ in range(job.get("double", 6)):
            k = r.randrange(1, n + 1)
            ex(inorder({k: r.choice(["err", "short"]), k + r.randrange(1, 4): r.choice(["err", "crash", "short"])}))
    elif job["kind"] == "pairs":
        st, _ = ex(lambda live, n, steps: (live[0], "go"))
        n1, n2 = st[0], st[1]
        for a in range(n1 + 1):
            for b in range(n2 + 1):
                def plan(live, n, steps):
                    if steps[0] < a and 1 in live:
                        return 1, "go"
                    if steps[1] < b and 2 in live:
                        return 2, "go"
                    return (1 if 1 in live else live[0]), "go"
                ex(plan)
    else:
        q = list(job["sched"])

        def plan(live, n, steps):
            while q:
                p, w = q.pop(0)
                if p in live:
                    return p, w
            return r.choice(live), "go"
        ex(plan)


for n, job in jobs():
    run(job)
