"""Helper of all drivers: job input, trace output, guarded calls. Drivers record, they never decide."""
import gc
import json
import os
import random
import resource
import signal
import sys

jf, of = sys.argv[1], sys.argv[2]
with open(jf) as f:
    CFG = json.load(f)
sys.path.insert(0, CFG["repo"])
gb = float(os.environ.get("VERIF_AS_GB", "6"))
if gb > 0:
    resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2**30), int(gb * 2**30)))
try:
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
except Exception:
    pass
import gitdb  # noqa: E402
assert os.path.realpath(gitdb.__file__).startswith(os.path.realpath(CFG["repo"]) + "/"), gitdb.__file__

SCRATCH = CFG["scratch"]
THOROUGH = CFG["tier"] == "thorough"
_out = open(of, "w")


class Hang(BaseException):
    """raised inside a library call that does not return"""


def _alarm(sig, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)

TIMEOUT = 10.0
HANGS = 0       # a library that hangs is convicted by the first traces; do not wait for every one


def limit(seconds):
    global TIMEOUT
    TIMEOUT = seconds


EXN = {}


def exn(e):
    """exception -> the word the specifications use"""
    from gitdb.exc import BadObject, AmbiguousObjectName, UnsupportedOperation
    if isinstance(e, Hang):
        return "hang"
    if isinstance(e, AmbiguousObjectName):
        return "Ambiguous"
    if isinstance(e, BadObject):
        return "BadObject"
    if isinstance(e, UnsupportedOperation):
        return "Unsupported"
    if os.environ.get("VERIF_DEBUG"):
        import traceback
        traceback.print_exception(e, file=open("/tmp/exn.log", "a"))
    return type(e).__name__


def free(e):
    """let go of what the frames of an endless call piled up"""
    tb, e.__traceback__, e.__context__ = e.__traceback__, None, None
    while tb is not None:
        try:
            tb.tb_frame.clear()
        except RuntimeError:
            pass
        tb = tb.tb_next
    del tb
    gc.collect()


def call(fn, *a, **kw):
    """(outcome word, value): outcome is "ok" or the exception's word"""
    signal.setitimer(signal.ITIMER_REAL, TIMEOUT)
    try:
        try:
            v = fn(*a, **kw)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return "ok", v
    except Hang as e:
        global HANGS
        HANGS += 1
        free(e)
        return "hang", e
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError as e:
        HANGS += 1
        free(e)
        return exn(e), e
    except BaseException as e:
        return exn(e), e


class Trickle:
    """a stream which provides less than it is asked for at a time, like a pipe"""

    def __init__(self, r, data):
        self.r, self.data, self.at = r, data, 0
        self.most = r.choice([max(1, len(data) // 50), max(1, len(data) // 3), 1 << 30])

    def read(self, n=-1):
        if n < 0:
            n = len(self.data)
        k = min(n, self.most, len(self.data) - self.at)
        if k > 1 and self.r.random() < .7:
            k = self.r.choice([k - 1, k // 2, self.r.randrange(1, k)]) if k < 100000 else self.r.choice([k - 1, k - 4096, k // 2])
        b = self.data[self.at:self.at + k]
        self.at += k
        return b


TYPE_IDS = {b"commit": 1, b"tree": 2, b"blob": 3, b"tag": 4, "OFS_DELTA": 6, "REF_DELTA": 7}


def binsha(o):
    """the id an information or stream object carries; nothing if what it says about itself in other notations differs"""
    b = o.binsha
    if not isinstance(b, (bytes, memoryview)) or o.hexsha != bytes(b).hex().encode():
        return b"?"
    if isinstance(o, tuple) and o.type in TYPE_IDS and o.type_id != TYPE_IDS[o.type]:
        return b"??"
    return bytes(b)


def link(o):
    """what a stored entry says about its base: offset, or id"""
    if o.type_id != TYPE_IDS.get(o.type):
        return "wrong-type-id", b""
    if o.type == "OFS_DELTA":
        return str(o.pack_offset - o.delta_info), b""
    if o.type == "REF_DELTA":
        return "", bytes(o.delta_info)
    return "", b""


def enough():
    return HANGS >= 3


def emit(cfg, ev, label="", **kw):
    t = {"id": 0, "label": label, "cfg": cfg, "ev": ev}
    t.update(kw)
    _out.write(json.dumps(t) + "\n")
    _out.flush()


def current(cfg, ev, label=""):
    """what to blame when the process is lost"""
    with open(of + ".cur", "w") as f:
        json.dump({"id": 0, "label": label, "cfg": cfg, "ev": ev}, f)


def jobs():
    for n, j in enumerate(CFG["jobs"]):
        if enough():
            return
        yield n, j


def rng(*key):
    return random.Random(repr((CFG["seed"],) + key))


def place(name):
    """a directory of the scratch area, often with a name that is no word"""
    k = rng("place", name)
    return os.path.join(SCRATCH, name + (k.choice(["[1]", "[!a-z]", " x", "ä", "*", "?", "{a}", "%s", "'", "#", "~", "\\", ".idx", ".pack", "pack-"]) if k.random() < .4 else ""))


def open_fds():
    return len(os.listdir("/proc/self/fd")) - 1


def hexid(typ, data):
    import hashlib
    return hashlib.sha1(typ + b" " + str(len(data)).encode() + b"\0" + data).digest()
