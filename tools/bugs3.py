exec(open("/verif/tools/bugs1.py").read().split('bug("C02')[0])

bug("C13-subsecond", "C13", "a pack added within the same second as the last refresh, whose directory timestamp is a fraction later",
    "timestamps are compared in full seconds: a plain refresh misses packs which appeared later in the same second",
    {"gitdb/db/pack.py": [("        if not force and stat.st_mtime <= self._st_mtime:\n", "        if not force and int(stat.st_mtime) <= int(self._st_mtime):\n")]},
    HEAD + '''
from gitdb import MemoryDB, IStream
from gitdb.db import PackedDB
from gitdb.pack import PackEntity
m = MemoryDB()
ids = []
def pack(d):
    s = m.store(IStream("blob", len(d), BytesIO(d))).binsha
    PackEntity.create([m.stream(s)], top)
    return s
a = pack(b"first")
os.utime(top, (1000000000.25, 1000000000.25))
db = PackedDB(top)
assert db.has_object(a)
b = pack(b"second")
os.utime(top, (1000000000.75, 1000000000.75))
assert db.update_cache()
assert db.has_object(b)
''')

bug("C15-symlink-cycle", "C15", "an alternates file which leads back to its user by another name of the directory (symbolic link)",
    "alternates leading back to their user are only recognised by the same path",
    {"gitdb/db/git.py": [("self._parents + (os.path.realpath(self.root_path()), )", "self._parents + (self.root_path(), )")],
     "gitdb/db/ref.py": [("                if os.path.realpath(path) in self._parents:\n", "                if path in self._parents:\n")]},
    HEAD + '''
from gitdb import IStream
from gitdb.db import GitDB
a, b, l = (os.path.join(top, x) for x in ("a", "b", "l"))
for d in (a, b):
    os.makedirs(d + "/info")
os.symlink(a, l)
open(a + "/info/alternates", "w").write(b + "\\n")
open(b + "/info/alternates", "w").write(l + "\\n")
sys.setrecursionlimit(400)
i = GitDB(b).store(IStream("blob", 1, BytesIO(b"x"))).binsha
db = GitDB(a)
assert db.has_object(i)
assert sorted(db.sha_iter()) == [i]
assert not db.has_object(b"\\1" * 20)
''')

bug("C17-positioned", "C17", "an encoded object supplied in a BytesIO which isn't at its beginning",
    "encoded objects in a BytesIO are taken from its beginning instead of from its position",
    {"gitdb/db/mem.py": [("            data = BytesIO()\n            stream_copy(", "            data = istream.stream if isinstance(istream.stream, BytesIO) else BytesIO()\n            if data is not istream.stream:\n                stream_copy(")]},
    HEAD + '''
from gitdb import IStream, MemoryDB
m = MemoryDB()
d = b"some content"
raw = b"blob 12\\0" + d
i = hashlib.sha1(raw).digest()
src = BytesIO(b"sixteen bytes...." + zlib.compress(raw))
src.seek(17)
m.store(IStream("blob", 12, src, i))
assert m.stream(i).read() == d
''')

bug("C16-stale-lock", "C16", "a lock which is held for longer than ten minutes when another process wants it",
    "locks older than ten minutes are considered stale and taken away from their holder",
    {"gitdb/util.py": [("        # try to open the lock file\n", "        # left behind by a process which is gone\n        with suppress(OSError):\n            if time.time() - os.stat(self._lockfilepath()).st_mtime > 600:\n                remove(self._lockfilepath())\n        # END handle stale lock\n\n        # try to open the lock file\n")]},
    HEAD + '''
import time
from gitdb.util import LockedFD
p = os.path.join(top, "f")
open(p, "wb").write(b"old")
a = LockedFD(p)
fd = a.open(write=True)
os.write(fd, b"new")
os.utime(p + ".lock", (time.time() - 4000,) * 2)
b = LockedFD(p)
try:
    b.open(write=True)
except OSError:
    pass
else:
    raise SystemExit("two holders")
a.commit()
assert open(p, "rb").read() == b"new"
''')

bug("C02-cleanup-tmp", "C02", "another process which stores an object in the same directory at the same time",
    "a store removes temporary files of other stores which are still going on",
    {"gitdb/db/loose.py": [("            # open a tmp file to write the data to\n", "            # remove what interrupted stores left behind, then open a tmp file to write the data to\n            for name in os.listdir(self._root_path):\n                if name.startswith('obj') and isfile(self.db_path(name)):\n                    with suppress(OSError):\n                        remove(self.db_path(name))\n            # END for each leftover\n")]},
    HEAD + '''
from gitdb import IStream, LooseObjectDB
a, b = LooseObjectDB(top), LooseObjectDB(top)
class Src(BytesIO):
    done = False
    def read(self, n=-1):
        if not self.done:
            self.done = True
            b.store(IStream("blob", 5, BytesIO(b"other")))
        return super().read(n)
d = b"content"
i = a.store(IStream("blob", 7, Src(d))).binsha
assert a.stream(i).read() == d
''')

bug("C19-last-hit", "C19", "two threads, one of them switched away between two assignments",
    "the last answer is remembered in two attributes which are not set at once: a thread can get another object's position",
    {"gitdb/db/pack.py": [("        self._st_mtime = 0              # last modification data of our root path\n", "        self._st_mtime = 0              # last modification data of our root path\n        self._last_sha = None           # most recent query\n        self._last_info = None          # and its answer\n"),
                          ("        # presort ?\n        if self._hit_count", "        # objects are usually queried several times in a row\n        if self._last_sha == sha:\n            return self._last_info\n        # presort ?\n        if self._hit_count"),
                          ("                return (item[1], index)\n", "                self._last_sha = sha\n                self._last_info = (item[1], index)\n                return self._last_info\n"),
                          ("        # packs are supposed to be prefixed with pack- by git-convention\n", "        # packs are supposed to be prefixed with pack- by git-convention\n        self._last_sha = self._last_info = None\n")]},
    HEAD + '''
import threading
from gitdb import MemoryDB, IStream
from gitdb.db import PackedDB
from gitdb.pack import PackEntity
sys.setswitchinterval(1e-6)
m = MemoryDB()
objs = {}
for k in range(40):
    d = b"%d" % k * (k + 1)
    objs[m.store(IStream("blob", len(d), BytesIO(d))).binsha] = len(d)
PackEntity.create([m.stream(i) for i in objs], top)
db = PackedDB(top)
db.entities()
bad = []
# one thread stopped behind each line of a lookup while another one looks up something else
ids = list(objs)
def at(stop):
    count = [0]
    def other():
        for i in (ids[2], ids[1]):
            if db.info(i).size != objs[i]:
                bad.append(stop)
    def tr(frame, ev, arg):
        if not frame.f_code.co_filename.endswith("gitdb/db/pack.py"):
            return tr
        if ev == "line":
            count[0] += 1
            if count[0] == stop:
                sys.settrace(None)
                t = threading.Thread(target=other)
                t.start()
                t.join()
        return tr
    sys.settrace(tr)
    try:
        x = db.info(ids[0]).size
        y = db.info(ids[1]).size
    except Exception as e:
        x = y = e
    finally:
        sys.settrace(None)
    if (x, y) != (objs[ids[0]], objs[ids[1]]):
        bad.append(stop)
for stop in range(1, 60):
    at(stop)
assert not bad, bad
''')

bug("C12-index-first-tmp", "C12", "an error while the index is written, behind the moment its name was chosen",
    "the index is written directly under its final name, hence readers may see it before it is complete",
    {"gitdb/pack.py": [("            os.rename(pack_path, new_pack_path)\n            paths = [index_path] + new_paths\n            os.rename(index_path, new_index_path)\n",
                        "            os.rename(pack_path, new_pack_path)\n            paths = [index_path] + new_paths\n            with open(index_path, 'rb') as src, open(new_index_path, 'wb') as dst:\n                paths.append(new_index_path)\n                dst.write(src.read())\n            # END keep the mode which files usually have\n            os.remove(index_path)\n")]},
    HEAD + '''
import builtins
import gitdb.pack
from gitdb import MemoryDB, IStream
from gitdb.db import PackedDB
from gitdb.pack import PackEntity
m = MemoryDB()
ids = [m.store(IStream("blob", k, BytesIO(b"x" * k))).binsha for k in range(20)]
# a reader at every step of the creation
bad = []
def tr(frame, ev, arg):
    if ev == "call" and not frame.f_code.co_filename.endswith("gitdb/pack.py"):
        return None
    if ev == "line":
        sys.settrace(None)
        db = PackedDB(top)
        try:
            n = sum(db.has_object(i) for i in ids)
            if n not in (0, len(ids)):
                bad.append(n)
        except Exception as e:
            bad.append(repr(e))
        del db
        sys.settrace(tr)
    return tr
def create():
    PackEntity.create([m.stream(i) for i in ids], top)
sys.settrace(tr)
create()
sys.settrace(None)
assert not bad, bad[:3]
assert all(PackedDB(top).has_object(i) for i in ids)
''')
