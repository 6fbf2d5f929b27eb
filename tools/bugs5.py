exec(open("/verif/tools/bugs1.py").read().split('bug("C02')[0])

bug("C10-first-stream", "C10", "an offset delta whose base is a reference delta",
    "references are only resolved if the object itself is one",
    {"gitdb/pack.py": [("        if streams[-1].type_id == REF_DELTA:\n", "        if streams[0].type_id == REF_DELTA:\n")]},
    HEAD + '''
import packlib as pl
from gitdb.pack import PackEntity
base = bytes(range(200))
d1 = pl.enc_delta(200, 100, [("c", 10, 100)])
d2 = pl.enc_delta(100, 53, [("c", 5, 50), ("i", b"xyz")])
r1, r2 = base[10:110], base[15:65] + b"xyz"
E = pl.Entry
es0 = E("whole", base, pl.oid(b"blob", base), typ=b"blob")
es = [es0, E("ref", d1, pl.oid(b"blob", r1), base=es0.sha), E("ofs", d2, pl.oid(b"blob", r2), base=1)]
e = PackEntity(pl.write_pack(top, es))
assert e.stream(es[1].sha).read() == r1
assert e.stream(es[2].sha).read() == r2
assert e.info(es[2].sha).size == 53
''')

bug("C13-negative-cache", "C13", "an object is asked for before its pack arrives, and another pack disappears in the same refresh",
    "a packed database remembers ids it did not find, and forgets them only if it knows more packs than before",
    {"gitdb/db/pack.py": [("        try:\n            self._pack_info(sha)\n            return True\n        except BadObject:\n            return False\n",
                           "        try:\n            return sha not in self._missing and bool(self._pack_info(sha))\n        except BadObject:\n            self._missing.add(sha)\n            return False\n"),
                          ("        # new packs\n", "        known = len(self._entities)\n        # new packs\n"),
                          ("        # reinitialize prioritiess\n", "        if len(self._entities) > known:\n            self._missing.clear()\n        # END forget what we didn't have\n\n        # reinitialize prioritiess\n"),
                          ("        super().__init__(root_path)\n", "        super().__init__(root_path)\n        self._missing = set()\n")]},
    HEAD + '''
import packlib as pl
from gitdb.db import PackedDB
def pack(n):
    b = b"content %d" % n
    e = pl.Entry("whole", b, pl.oid(b"blob", b), typ=b"blob")
    return e.sha, pl.write_pack(top, [e], name="%040x" % n)
a, pa = pack(1)
db = PackedDB(top)
assert db.has_object(a)
b = pl.oid(b"blob", b"content 2")
assert not db.has_object(b)
assert pack(2)[0] == b
os.remove(pa)
os.remove(pa[:-4] + "idx")
assert db.update_cache(force=True)
assert not db.has_object(a)
assert db.has_object(b) and db.stream(b).read() == b"content 2"
c = pl.oid(b"blob", b"content 3")
assert not db.has_object(c)
pack(3)
db.update_cache(force=True)
assert db.has_object(c)
''')

bug("C14-negative-cache", "C14", "an object is asked for, then stored as loose object in an alternate, then the database is refreshed",
    "a composite database doesn't ask packs and alternates for ids they did not have until a refresh reports changes, which loose objects are not",
    {"gitdb/db/base.py": [("        for db in self._dbs:\n            if db.has_object(sha):\n                self._db_cache[sha] = db\n                return db\n",
                           "        for db in self._dbs:\n            if isinstance(db, CachingDB) and sha in self._db_missing:\n                continue\n            if db.has_object(sha):\n                self._db_cache[sha] = db\n                return db\n"),
                          ("        # END for each database\n        raise BadObject(sha)\n", "        # END for each database\n        self._db_missing.add(sha)\n        raise BadObject(sha)\n"),
                          ("        elif attr == '_db_cache':\n", "        elif attr == '_db_missing':\n            self._db_missing = set()\n        elif attr == '_db_cache':\n"),
                          ("        # END for each database to update\n        return stat\n", "        # END for each database to update\n        if stat:\n            self._db_missing.clear()\n        # END forget what was missing\n        return stat\n")]},
    HEAD + '''
from gitdb import GitDB, LooseObjectDB, IStream
alt = os.path.join(top, "other")
for d in ("info", "pack", "other"):
    os.makedirs(os.path.join(top, d))
with open(os.path.join(top, "info", "alternates"), "w") as f:
    f.write(alt + "\\n")
w = LooseObjectDB(alt)
a = w.store(IStream("blob", 3, BytesIO(b"abc"))).binsha
g = GitDB(top)
g.update_cache(True)
assert g.has_object(a)
b = hashlib.sha1(b"blob 3\\0xyz").digest()
assert not g.has_object(b)
assert w.store(IStream("blob", 3, BytesIO(b"xyz"))).binsha == b
g.update_cache()
assert g.has_object(b) and g.info(b).size == 3
''')

bug("C15-two-removed", "C15", "at least two directories vanish from the alternates file between two refreshes",
    "databases are dropped by their positions in the list before any was dropped",
    {"gitdb/db/ref.py": [("        for path in (cur_ref_paths_set - ref_paths_set):\n            for i, db in enumerate(self._dbs[:]):\n                if db.root_path() == path:\n                    del(self._dbs[i])\n                    continue\n                # END del matching db\n",
                          "        obsolete = [i for i, db in enumerate(self._dbs) if db.root_path() not in ref_paths_set]\n        for shift, i in enumerate(obsolete):\n            del(self._dbs[max(i - shift, shift)])\n")]},
    HEAD + '''
import itertools
from gitdb import LooseObjectDB, IStream
from gitdb.db import ReferenceDB
ids, dirs = [], []
for n in range(4):
    d = os.path.join(top, "alt%d" % n)
    os.makedirs(d)
    dirs.append(d)
    c = b"content %d" % n
    ids.append(LooseObjectDB(d).store(IStream("blob", len(c), BytesIO(c))).binsha)
alt = os.path.join(top, "alternates")
for keep in itertools.product([0, 1], repeat=4):
    with open(alt, "w") as f:
        f.write("\\n".join(dirs))
    r = ReferenceDB(alt)
    assert all(map(r.has_object, ids))
    with open(alt, "w") as f:
        f.write("\\n".join(d for d, k in zip(dirs, keep) if k))
    r.update_cache()
    assert [r.has_object(i) for i in ids] == [bool(k) for k in keep], keep
''')

bug("C16-exists-then-open", "C16", "two processes trying to obtain the lock between each other's look and creation",
    "the lock file is looked for, then created, instead of being created exclusively",
    {"gitdb/util.py": [("        lockmode = os.O_WRONLY | os.O_CREAT | os.O_EXCL | binary\n        try:\n",
                        "        lockmode = os.O_WRONLY | os.O_CREAT | binary\n        try:\n            if exists(self._lockfilepath()):\n                raise OSError(errno.EEXIST, os.strerror(errno.EEXIST), self._lockfilepath())\n            # END check existing lock\n"),
                       ("import time\n", "import time\nimport errno\n")]},
    HEAD + '''
import threading, time
import gitdb.util
from gitdb.util import LockedFD
path = os.path.join(top, "file")
with open(path, "w") as f:
    f.write("old")
real = os.open
gate = threading.Barrier(2)
def slow(p, *a, **k):
    if str(p).endswith(".lock"):
        try:
            gate.wait(3)
        except threading.BrokenBarrierError:
            pass
    return real(p, *a, **k)
os.open = slow
got, locks = [], []
def run():
    l = LockedFD(path)
    locks.append(l)
    try:
        l.open(write=True)
        got.append(l)
    except OSError:
        pass
ts = [threading.Thread(target=run) for _ in range(2)]
[t.start() for t in ts]
[t.join() for t in ts]
os.open = real
assert len(got) == 1, "%d holders" % len(got)
got[0].rollback()
''')

bug("C20-own-reader", "C20", "an object stream dropped without closing it",
    "the reader keeps a reference to itself, so it is only released by the garbage collector",
    {"gitdb/db/loose.py": [("        type, size, stream = DecompressMemMapReader.new(m, close_on_deletion=True)\n", "        type, size, stream = DecompressMemMapReader.new(m, close_on_deletion=True)\n        stream._cursor = stream.read\n")]},
    HEAD + '''
import gc
from gitdb import LooseObjectDB, IStream
db = LooseObjectDB(top)
ids = [db.store(IStream("blob", 3000, BytesIO(random.Random(n).randbytes(3000)))).binsha for n in range(20)]
def fds():
    return len(os.listdir("/proc/self/fd"))
gc.collect()
gc.disable()
before = fds()
for i in ids:
    s = db.stream(i)
    assert len(s.read()) == 3000
    del s
assert fds() == before, (before, fds())
''')

bug("C22-tell-short", "C22", "the last read from a descriptor which provides less than asked for, then tell",
    "the position of a stream on a descriptor is advanced by what was asked for",
    {"gitdb/stream.py": [("        self._pos += len(bytes)\n        return bytes\n", "        self._pos += count or len(bytes)\n        return bytes\n")]},
    HEAD + '''
from gitdb.stream import FDStream
p = os.path.join(top, "f")
with open(p, "wb") as f:
    f.write(b"0123456789")
s = FDStream(os.open(p, os.O_RDONLY))
assert s.read(4) == b"0123" and s.tell() == 4
assert s.read(100) == b"456789" and s.tell() == 10, s.tell()
assert s.read(5) == b"" and s.tell() == 10, s.tell()
s.close()
''')

bug("C02-pid-name", "C02", "an object whose source stores another object in the same directory, or two threads storing at once",
    "the temporary file is named by the process, so two stores of one process write into the same file",
    {"gitdb/db/loose.py": [("            fd, tmp_path = tempfile.mkstemp(prefix='obj', dir=self._root_path)\n",
                            "            tmp_path = join(self._root_path, 'obj%i' % os.getpid())\n            fd = os.open(tmp_path, os.O_RDWR | os.O_CREAT | getattr(os, 'O_BINARY', 0), int('600', 8))\n")]},
    HEAD + '''
import threading
from gitdb import LooseObjectDB, IStream
class Slow:
    def __init__(self, data, gate):
        self.s, self.gate, self.first = BytesIO(data), gate, True
    def read(self, n=-1):
        if self.first:
            self.first = False
            try:
                self.gate.wait(3)
            except threading.BrokenBarrierError:
                pass
        return self.s.read(n)
gate = threading.Barrier(2)
datas = [random.Random(n).randbytes(200000 + n) for n in range(2)]
errors = []
def run(d):
    try:
        i = LooseObjectDB(top).store(IStream("blob", len(d), Slow(d, gate))).binsha
        assert i == hashlib.sha1(b"blob %d\\0" % len(d) + d).digest()
    except BaseException as e:
        errors.append(e)
ts = [threading.Thread(target=run, args=(d, )) for d in datas]
[t.start() for t in ts]
[t.join() for t in ts]
assert not errors, errors
for d in datas:
    i = hashlib.sha1(b"blob %d\\0" % len(d) + d).digest()
    assert LooseObjectDB(top).stream(i).read() == d
''')
