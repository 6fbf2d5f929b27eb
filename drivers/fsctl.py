"""Controller of processes running under shim/fsshim.c: they ask before every file-system call below a root"""
import ctypes
import errno
import json
import os
import select
import signal
import struct
import sys
import time

LIB = ctypes.CDLL(None)


class Child:
    """a forked process calling fn(report); report(dict) passes a record to the controller"""

    def __init__(self, p, root, fn):
        self.p = p
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(a)
                os.close(d)
                signal.setitimer(signal.ITIMER_REAL, 0)
                LIB.shim_on(root.encode(), b, c)

                def report(rec):
                    os.write(b, b"!" + json.dumps(rec).encode() + b"\n")
                report.fds = (b, c)
                fn(report)
            except BaseException as e:
                try:
                    import traceback
                    os.write(b, b"!" + json.dumps({"op": "harness", "err": "".join(traceback.format_exception(e))[-1500:]}).encode() + b"\n")
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(b)
        os.close(c)
        self.r, self.w = a, d
        self.buf = b""
        self.pending = None         # the call it asks for: (op, path, path2, n)
        self.over = False
        self.status = None

    def wait(self, timeout=20):
        """until it asks for a call or is gone; -> the records it reported on the way"""
        recs = []
        end = time.monotonic() + timeout
        while True:
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                if line[:1] == b"!":
                    recs.append(json.loads(line[1:]))
                    continue
                op, p1, p2, n = line.decode("utf-8", "surrogateescape").split("\x1f")
                self.pending = (op, p1, p2, int(n))
                return recs
            left = end - time.monotonic()
            rd = select.select([self.r], [], [], max(0, left))[0]
            if not rd:
                os.kill(self.pid, signal.SIGKILL)
                self.gone()
                recs.append({"op": "hang"})
                return recs
            x = os.read(self.r, 65536)
            if not x:
                self.gone()
                return recs
            self.buf += x

    def gone(self):
        if not self.over:
            self.over = True
            self.pending = None
            os.close(self.r)
            os.close(self.w)
            self.reap()

    def reap(self):
        self.status = os.waitpid(self.pid, 0)[1]

    def answer(self, a="g", n=0):
        self.pending = None
        try:
            os.write(self.w, a.encode() + struct.pack("<q", n))
        except BrokenPipeError:
            pass

    def kill(self):
        if not self.over:
            os.kill(self.pid, signal.SIGKILL)
            self.gone()


class Member(Child):
    """a thread of a process, controlled like a process of its own (see team)"""

    def __init__(self, p, pid, r, w, left):
        self.p, self.pid, self.r, self.w, self.left = p, pid, r, w, left
        self.buf = b""
        self.pending = None
        self.over = False
        self.status = None

    def reap(self):
        self.left.discard(self.p)
        if not self.left:
            self.status = os.waitpid(self.pid, 0)[1]


def team(ps, root, fns):
    """one forked process with a thread for each of fns; -> Members. As they wait for the controller within system calls,
    which don't hold python's lock, one is stopped while another goes on"""
    import threading
    pipes = [os.pipe() + os.pipe() for _ in fns]
    pid = os.fork()
    if pid == 0:
        try:
            for a, b, c, d in pipes:
                os.close(a)
                os.close(d)
            signal.setitimer(signal.ITIMER_REAL, 0)
            LIB.shim_on(root.encode(), -1, -1)

            def thread(fn, b, c):
                LIB.shim_thread(b, c)

                def report(rec):
                    os.write(b, b"!" + json.dumps(rec).encode() + b"\n")
                try:
                    fn(report)
                except BaseException as e:
                    import traceback
                    report({"op": "harness", "err": "".join(traceback.format_exception(e))[-1500:]})
                os.close(b)
            ts = [threading.Thread(target=thread, args=(fn, b, c)) for fn, (a, b, c, d) in zip(fns, pipes)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            os._exit(0)
    left = set(ps)
    out = []
    for p, (a, b, c, d) in zip(ps, pipes):
        os.close(b)
        os.close(c)
        out.append(Member(p, pid, a, d, left))
    return out


ERRNOS = {"write": ["ENOSPC", "EIO", "EDQUOT"], "create": ["ENOSPC", "EACCES", "EMFILE"], "close": ["EIO", "ENOSPC"], "rename": ["EIO", "ENOSPC", "EACCES"],
          "mkdir": ["ENOSPC", "EACCES", "EIO"], "chmod": ["EPERM", "EIO"], "unlink": ["EIO", "EACCES"], "stat": ["EIO", "EACCES"],
          "openread": ["EIO", "EACCES", "EMFILE"], "opendir": ["EIO", "EACCES", "EMFILE"], "mmap": ["ENOMEM", "ENODEV"], "read": ["EIO"], "link": ["EIO", "ENOSPC"],
          "fsync": ["EIO"], "truncate": ["EIO"], "opencreate": ["ENOSPC", "EACCES"], "openwrite": ["EIO", "EACCES"], "rmdir": ["EIO"], "symlink": ["EIO"]}


def act(r, call, what):
    """abstract fault -> (answer, number, word in the trace)"""
    op, p1, p2, n = call
    if what == "go":
        return "g", 0, "go"
    if what == "err":
        return "e", getattr(errno, r.choice(ERRNOS[op])), "err"
    if what == "late":      # done, but reported as failed
        if op in ("rename", "mkdir", "close", "chmod", "unlink"):
            return "E", errno.EIO, "err"
        return "e", errno.EIO, "err"
    if what == "short":
        if op == "write" and n > 0:
            return "s", r.choice([0, n // 2, n - 1]) if n > 1 else 0, "short"
        if op == "read" and n > 1:
            return "s", max(1, n // 2), "go"
        return "g", 0, "go"
    if what == "crash":
        if op == "write" and n > 1 and r.random() < .6:
            return "p", r.choice([1, n // 2, n - 1]), "crash"
        return r.choice(["x", "y"]), 0, "crash"
    raise ValueError(what)
