"""C26: contents of files (mapped, read piece by piece, failing), allocated memory, copies of streams"""
import errno
import gc
import os
from drv import *
import packlib as pl
import fsctl
import gitdb.util
from gitdb.util import file_contents_ro, file_contents_ro_filepath, allocate_memory
from gitdb.fun import stream_copy, write_object

limit(20)


def content(r, n):
    if n <= 256:
        return bytes(r.sample(range(256), n))
    return r.randbytes(n)


def found(true, b):
    """all positions at which b is in the true content"""
    out, at = [], 0
    if len(b) == 0:
        return out
    if len(b) < 4 and len(true) > 100000:
        # too many; tell those close to an end
        spans = [(0, 3000), (len(true) - 3000, len(true))]
    else:
        spans = [(0, len(true))]
    for lo, hi in spans:
        at = lo
        while len(out) < 500:
            at = true.find(b, at, hi)
            if at < 0:
                break
            out.append(at)
            at += 1
    return out


BASE = {"op": "", "out": "ok", "len": 0, "missing": False, "hit": False, "fds": 0, "kept": True, "n": 0, "a": 0, "b": 0, "at": [], "to": 0, "v": 0, "gave": 0, "ret": 0}


def rec(op, **kw):
    return dict(BASE, op=op, **kw)


def fds():
    return len(os.listdir("/proc/self/fd"))


def use(r, x, size, true, ops, streams, report):
    """x: what was provided"""
    pos = 0
    big = size > 100000
    for op, a, b in ops:
        def near(k):
            # a bound: the model's units, in bytes, or one beside it
            v = k * max(1, size // 3) + r.choice([0, 0, 1, -1])
            return max(-size - 2, min(size + 2, v))
        if op == "slice":
            a, b = near(a), near(b)
            if big and 0 < min(max(0, b if b >= 0 else size + b), size) - max(0, a if a >= 0 else size + a) < 4:
                b = a + 9
            o, v = call(lambda: bytes(x[a:b]))
            report(rec("slice", a=a, b=b, out=o, len=len(v) if o == "ok" else 0, at=found(true, v) if o == "ok" else []))
        elif op == "index":
            a = near(a)
            if big:
                a = r.choice([r.randrange(0, 2900), -r.randrange(1, 2900), size, -size - 1, -size])
            o, v = call(lambda: bytes((x[a], )))
            report(rec("index", a=a, out=o, len=1 if o == "ok" else 0, at=found(true, v) if o == "ok" else []))
        elif op == "len":
            o, v = call(len, x)
            report(rec("len", out=o, v=v if o == "ok" else 0))
        elif not streams:
            continue
        elif op == "seek":
            a = max(0, min(size, near(a)))
            o, v = call(x.seek, a)
            pos = a
            report(rec("seek", to=a, out=o))
        elif op == "tell":
            o, v = call(x.tell)
            report(rec("tell", out=o, v=v if o == "ok" else 0))
        elif op == "read":
            n = -1 if a < 0 else max(0, near(a))
            if big and n > 0:
                n = max(n, 9)
                if 0 < size - pos < 4:
                    n = 0
            o, v = call(lambda: bytes(x.read(n)) if n >= 0 or r.random() < .5 else bytes(x.read()))
            if o == "ok":
                pos += len(v)
            report(rec("read", n=n, out=o, len=len(v) if o == "ok" else 0, at=found(true, v) if o == "ok" else []))
        # (an exception keeps the frames, and so what was provided)
        v = None


def program(r, path, way, size, true, ops, missing):
    def fn(report):
        gc.collect()
        gc.disable()
        f0 = fds()
        fd = None
        if way["path"]:
            fl = r.choice([0, 0, os.O_NOATIME])
            o, x = call(lambda: file_contents_ro_filepath(path, stream=way["stream"], allow_mmap=way["map"], flags=fl))
        else:
            fd = os.open(path, os.O_RDONLY)
            f0 += 1
            o, x = call(lambda: file_contents_ro(fd, stream=way["stream"], allow_mmap=way["map"]))
        kept = True
        if fd is not None:
            try:
                kept = os.fstat(fd).st_size == size
            except OSError:
                kept = False
        if o != "ok":
            x = None
            gc.collect()
        n = len(x) if o == "ok" else 0
        report(rec("open", out=o, len=n, missing=missing, kept=kept, fds=fds() - f0))
        if o == "ok" and n == size:
            use(r, x, size, true, ops, way["stream"], report)
        if fd is not None and kept:
            if r.random() < .5 and o == "ok" and n == size:
                # no longer needed
                os.close(fd)
                fd = None
                f0 -= 1
                use(r, x, size, true, [("slice", 0, 4), ("index", 0, 0)], False, report)
        if o == "ok" and r.random() < .3 and hasattr(x, "close"):
            x.close()
        x = None
        report(rec("drop", fds=fds() - f0))
    return fn


def dofile(r, job, unit, ev):
    size = job["size"] * unit + (r.choice([0, 1, -1]) if job["size"] and unit > 1 else 0)
    true = content(r, size)
    top = place("d%d" % job["n"])
    os.mkdir(top)
    path = os.path.join(top, "f")
    missing = job["way"]["path"] and r.random() < .03
    if not missing:
        with open(path, "wb") as f:
            f.write(true)
    cfg = {"kind": "file", "size": size, "chunk": 0, "len": 0, "head": 0, "way": str(job["way"]), "h": str(job["h"])}
    current(cfg, ev)
    plan = [h for h in job["h"] if h["op"] in ("short", "read") and "y" in h]
    # (reads of the file come before those of what it provided)
    start = next((k for k, h in enumerate(job["h"]) if h["op"] in ("slice", "index", "seek", "tell", "len") or (h["op"] == "read" and job["used"] and k >= job["prep"])), len(job["h"]))
    prep, ops = job["h"][:start], [(h["op"], h["x"], h["y"]) for h in job["h"][start:]]
    plan = [h for h in prep if h["op"] in ("short", "read")]
    openfail = any(h["op"] == "openread" for h in prep)
    mapfail = any(h["op"] == "mmap" for h in prep)
    hit = [False]
    c = fsctl.Child(1, top, program(r, path, job["way"], size, true, ops, missing))

    def take(recs):
        for e in recs:
            if e["op"] == "harness":
                raise RuntimeError(e["err"])
            if e["op"] == "hang":
                e = rec("open", out="hang")
            if e["op"] == "open":
                e["hit"] = hit[0]
                opened[0] = True
            ev.append(e)
    opened = [False]
    take(c.wait(60))
    k = 0
    while not c.over and k < 100000:
        k += 1
        op, p1, p2, n = c.pending
        a = ("g", 0)
        if not opened[0]:
            if op == "openread" and openfail:
                a = ("e", r.choice([errno.EIO, errno.EACCES, errno.EMFILE]))
                hit[0] = True
            elif op == "mmap" and mapfail:
                a = ("e", r.choice([errno.ENODEV, errno.ENOMEM, errno.EACCES]))
            elif op == "read" and plan:
                h = plan.pop(0)
                if h["op"] == "read":
                    a = ("e", errno.EIO)
                    hit[0] = True
                else:
                    a = ("s", max(1, min(n - 1, h["x"] * unit // r.choice([1, 2, 5]))))
        c.answer(*a)
        take(c.wait(60))
    c.kill()
    emit(cfg, ev)
    pl_rm(top)


def pl_rm(top):
    import shutil
    shutil.rmtree(top, ignore_errors=True)


def domem(r, job, unit, ev):
    size = job["size"] * unit
    true = content(r, size)
    cfg = {"kind": "mem", "size": size, "chunk": 0, "len": 0, "head": 0, "way": "", "h": str(job["h"])}
    current(cfg, ev)
    f0 = fds()
    lacking = r.random() < .3
    if lacking:
        # the system has no memory to map
        def refuse(*a, **kw):
            raise OSError(errno.ENOMEM, "no memory")
        real, gitdb.util.mmap.mmap = gitdb.util.mmap.mmap, refuse
    try:
        o, x = call(allocate_memory, size)
    finally:
        if lacking:
            gitdb.util.mmap.mmap = real
    ev.append(rec("open", out=o, len=len(x) if o == "ok" else 0))
    fills = [h["x"] for h in job["h"] if h["op"] == "fill"]
    at = 0
    for k, f in enumerate(fills):
        n = f * unit if k < len(fills) - 1 else size - at
        o, v = call(x.write, true[at:at + n])
        ev.append(rec("fill", n=n, out=o))
        at += n
    o, v = call(x.seek, 0)
    ev.append(rec("seek", to=0, out=o))
    use(r, x, size, true, [(h["op"], h["x"], h["y"]) for h in job["h"][len(fills):]], True, ev.append)
    x = v = None
    gc.collect()
    ev.append(rec("drop", fds=fds() - f0))
    emit(cfg, ev)


class Fails(Exception):
    pass


def docopy(r, job, unit, ev):
    size, have = job["size"] * unit, job["src"] * unit
    if unit > 1:
        size, have = max(0, size + r.choice([0, 0, 1, -1])) if size else 0, max(0, have + r.choice([0, 0, 1, -1]))
    if r.random() < .2:
        have = size
    chunk = max(1, job["chunk"] * unit // r.choice([1, 1, 3]) + r.choice([0, 0, 1]))
    data = content(r, have)
    typ = r.choice(sorted(pl.TYPES))
    head = typ + b" %d\0" % size if r.random() < .4 else b""
    true = head + data
    cfg = {"kind": "copy", "size": size, "chunk": chunk, "len": have, "head": len(head), "way": "", "h": str(job["h"])}
    current(cfg, ev)
    fail = r.randrange(0, 6) if any(h["op"] == "fail" for h in job["h"]) else -1
    calls = [0]
    at = [0]
    slow = r.random() < .5

    def step():
        if len(ev) > 3000:
            raise RuntimeError("endless")
        calls[0] += 1
        if calls[0] - 1 == fail:
            ev.append(rec("fail"))
            raise Fails()

    def read(n=-1):
        step()
        k = have - at[0] if n < 1 else min(n, have - at[0])
        if slow and k > 1 and r.random() < .6:
            k = r.choice([k - 1, max(1, k // 2), r.randrange(1, k)])
        b = data[at[0]:at[0] + k]
        at[0] += k
        ev.append(rec("ask", n=n, gave=k))
        return b
    to = [0]

    def write(b):
        step()
        b = bytes(b)
        # the position it has to be at is told if it is there
        f = [to[0]] if true[to[0]:to[0] + len(b)] == b else found(true, b)
        to[0] += len(b)
        ev.append(rec("put", len=len(b), at=f))
        # not all targets return how much they took
        return len(b) if head else r.choice([len(b), None, 0, (len(b) + 1) // 2])
    if head:
        o, v = call(write_object, typ, size, read, write, chunk_size=chunk)
    else:
        o, v = call(stream_copy, read, write, size, chunk)
    ev.append(rec("end", out=o, ret=v if o == "ok" else 0))
    emit(cfg, ev)


def run(job):
    r = rng("contents", job["n"])
    ev = []
    {"file": dofile, "mem": domem, "copy": docopy}[job["kind"]](r, job, job["unit"], ev)


for n, job in jobs():
    run(job)
