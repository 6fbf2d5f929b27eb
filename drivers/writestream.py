"""C22: write streams on memory, functions and descriptors which may refuse to take more"""
import hashlib
import os
import resource
import zlib
from drv import *
import packlib as pl
from gitdb.stream import Sha1Writer, FlexibleSha1Writer, ZippedStoreShaWriter, FDCompressedSha1Writer, FDStream

limit(20)
HARD = resource.getrlimit(resource.RLIMIT_FSIZE)[1]


class Refused(Exception):
    pass


def run(job):
    r = rng("write", job["n"])
    kind = job["kind"]
    cfg = {"kind": kind, "full": job.get("full", "")}
    ev = []
    current(cfg, ev)
    given = bytearray()
    # digest -> number of bytes; those given so far, or only those which were not refused
    digests = {hashlib.sha1(b"").hexdigest(): 0}
    sums = {0: hashlib.sha1()}
    path = os.path.join(SCRATCH, "w%d" % job["n"])
    got = []
    lim = [None]
    fd = None
    if kind in ("fd", "fdz"):
        fd = os.open("/dev/full" if job.get("dev") else path, os.O_RDWR | os.O_CREAT, 0o600)
        w = {"fd": FDStream, "fdz": FDCompressedSha1Writer}[kind](fd)
    elif kind == "flex":
        def take(b):
            if lim[0] is not None and sum(map(len, got)) + len(b) > lim[0]:
                raise Refused()
            got.append(bytes(b))
        w = FlexibleSha1Writer(take)
    elif kind == "zip":
        w = ZippedStoreShaWriter()
    else:
        w = Sha1Writer()
    closed = False
    moved = 0           # by us

    def stored():
        if kind == "flex":
            return b"".join(got)
        if kind == "zip":
            return call(lambda: bytes(w.getvalue()))[1]
        if kind == "sha" or job.get("dev"):
            return b""
        with open(path, "rb") as f:
            return f.read()

    def see(e, hit=False):
        b = stored()
        e["eof"] = False
        if not isinstance(b, bytes):
            e["sink"] = -1
        else:
            if kind in ("zip", "fdz") and b:
                d = zlib.decompressobj()
                try:
                    x = d.decompress(b)
                    e["eof"] = d.eof and not d.unused_data
                except zlib.error:
                    x = None
                b = x
            e["sink"] = -1 if b is None or bytes(given[:len(b)]) != b else len(b)
        e["full"] = hit
        ev.append(e)

    def limited(fn, *a, **k):
        """-> out, value, whether the sink took no more"""
        if job.get("dev"):
            out, v = call(fn, *a, **k)
            return out, v, True
        if fd is None or lim[0] is None:
            before = len(got)
            out, v = call(fn, *a, **k)
            return out, v, kind == "flex" and lim[0] is not None and len(got) == before
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim[0], HARD))
        try:
            out, v = call(fn, *a, **k)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (HARD, HARD))
        return out, v, os.path.getsize(path) >= lim[0]
    for h in job["h"]:
        op = h["op"]
        if closed and op not in ("sha", "seek", "value", "badseek"):
            break
        if h["w"] == "go":
            lim[0] = None
        else:
            have = os.path.getsize(path) if fd is not None and not job.get("dev") else sum(map(len, got))
            # a refused write comes whole or cut in its middle
            lim[0] = have + (0 if h["w"] == "err" else r.choice([1, 2, 5, 100, 4000]))
        if op == "write":
            k = {0: [0], 1: [1, 7, 100], 2: [4096, 20000, 70000, 300000]}[h["k"]]
            data = pl.content(r, r.choice(k), r.choice(["zero", "random", "text", "mixed"]))
            form = r.choice([bytes, bytes, bytearray, memoryview])
            # what is not raised was given; the digest may or may not include what was refused
            base = dict(sums)
            e = {"op": "write", "len": len(data), "ret": -1}
            mark = len(given)
            given.extend(data)
            out, v, hit = limited(w.write, form(data))
            if kind == "flex" and lim[0] is not None:
                hit = out == "Refused"
            for c, s in base.items():
                s2 = s.copy()
                s2.update(data)
                if out == "ok":
                    sums.pop(c, None)
                sums[c + len(data)] = s2
            for c, s in sums.items():
                digests[s.hexdigest()] = c
            e["out"] = out
            if out == "ok":
                e["ret"] = v if isinstance(v, int) else -1
            see(e, hit)
            if out != "ok":
                if kind == "fd":
                    # what follows is written behind what was taken
                    x = stored()
                    given[:] = given[:mark] + x[mark:] if len(x) >= mark else given
                break
        elif op == "sha":
            if kind == "fd":
                continue
            o1, a = call(w.sha)
            o2, b = call(w.sha, as_hex=True)
            at = -1
            if o1 == o2 == "ok" and isinstance(a, bytes) and isinstance(b, str) and a.hex() == b:
                at = digests.get(b, -1)
            see({"op": "sha", "out": o1 if o1 != "ok" else o2, "at": at})
        elif op == "tell":
            out, v = call(w.tell)
            see({"op": "tell", "out": out, "v": v if isinstance(v, int) else -1, "off": os.lseek(fd, 0, 1) - moved})
        elif op in ("read", "readall"):
            if job.get("dev"):
                continue
            # somewhere in the middle; the stream only knows how far it went itself
            end = os.lseek(fd, 0, 1)
            off = os.lseek(fd, -r.choice([0, min(5, len(given)), len(given), r.randrange(len(given) + 1)]), 1)
            moved += off - end
            want = 0 if op == "readall" else r.choice([1, 3, 4096, 1000000])
            out, v = call(w.read, want) if want or r.random() < .5 else call(w.read)
            e = {"op": "read", "out": out, "want": want, "left": len(given) - off, "got": 0, "right": False}
            if out == "ok" and isinstance(v, bytes):
                e.update(got=len(v), right=bytes(given[off:off + len(v)]) == v)
            see(e)
            off = os.lseek(fd, 0, 1)
            moved += os.lseek(fd, 0, 2) - off
        elif op in ("seek", "badseek"):
            if op == "seek" and not closed:
                continue        # it couldn't be written to any more
            to = 0 if op == "seek" else r.choice([1, -1, 5])
            out, v = call(w.seek, to) if to or r.random() < .5 else call(w.seek, *(r.choice([(0,), (0, 0)])))
            see({"op": "seek", "out": out, "to": to})
            if op == "seek":
                out, v = call(w.read)
                see({"op": "value", "out": out, "same": v == stored()})
        elif op == "value":
            out, v = call(w.getvalue)
            see({"op": "value", "out": out, "same": v == stored()})
        elif op == "close":
            if not hasattr(w, "close"):
                continue
            out, v, hit = limited(w.close)
            closed = True
            o = False
            if fd is not None:
                try:
                    os.fstat(fd)
                    o = True
                    os.close(fd)
                except OSError:
                    pass
            see({"op": "close", "out": out, "open": o}, hit)
    if fd is not None and not closed:
        out, v, hit = limited(w.close)
        try:
            os.fstat(fd)
            o = True
            os.close(fd)
        except OSError:
            o = False
        see({"op": "close", "out": out, "open": o}, hit)
    emit(cfg, ev, "")
    if fd is not None and not job.get("dev"):
        os.unlink(path)


for n, job in jobs():
    run(job)
