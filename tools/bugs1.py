BUGS = []


def bug(id, property, needs, what, edits, demo, pre=""):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo, pre=pre))


HEAD = '''
import os, sys, random, hashlib, zlib
from io import BytesIO
top = sys.argv[1]
'''

bug("C02-short-write-ignored", "C02", "a write on the temporary file which takes only a part of the data (disk full, file size limit)",
    "the compressing writer only notices writes which took nothing: a truncated loose object becomes visible",
    {"gitdb/stream.py": [("        if bytes_written != len(cdata):\n", "        if cdata and not bytes_written:\n")]},
    HEAD + '''
import gitdb.stream, gitdb.util
from gitdb import LooseObjectDB, IStream
rnd = random.Random(4)
data = rnd.randbytes(300000)
want = hashlib.sha1(b"blob %d\\0" % len(data) + data).digest()
real = os.write
done = []
def short(fd, d):
    if len(d) > 1000 and not done:
        done.append(1)
        return real(fd, bytes(d)[:-7])
    return real(fd, d)
gitdb.stream.write = os.write = short
db = LooseObjectDB(top)
try:
    db.store(IStream("blob", len(data), BytesIO(data)))
except OSError:
    pass
assert done
if db.has_object(want):
    assert db.stream(want).read() == data, "damaged object visible"
''')

bug("C02-source-error-leaves-tmp", "C02", "a source stream which fails with something else than an OSError while an object is stored",
    "the temporary file of a store whose source stream fails stays",
    {"gitdb/db/loose.py": [("        except:\n            if tmp_path:", "        except OSError:\n            if tmp_path:")]},
    HEAD + '''
from gitdb import LooseObjectDB, IStream
class Src:
    def __init__(self, e): self.e = e; self.n = 0
    def read(self, n=-1):
        self.n += 1
        if self.n > 1: raise self.e
        return b"x" * n
db = LooseObjectDB(top)
for e in (OSError("disk"), ValueError("source"), zlib.error("broken"), KeyboardInterrupt()):
    try:
        db.store(IStream("blob", 9000000, Src(e)))
    except BaseException as x:
        assert x is e
    else:
        raise SystemExit("no error")
    assert os.listdir(top) == [], (e, os.listdir(top))
''')

bug("C04-offset-byte", "C04", "a copy command whose offset needs its fourth byte, hence a base of more than 16 MiB",
    "the fourth byte of copy offsets is shifted as the third one",
    {"gitdb/fun.py": [("cp_off |= (db[i] << 24)", "cp_off |= (db[i] << 16)", 2)]},
    HEAD + '''
import packlib as P
from gitdb.pack import PackEntity
base = b"".join(b"%08d" % i for i in range(2300000))
d1 = [("c", 17000000, 500), ("i", b"hello")]
r1 = P.apply_cmds(base, d1)
E = P.Entry
es = [E("whole", base, P.oid(b"blob", base), b"blob"),
      E("ofs", P.enc_delta(len(base), len(r1), d1), P.oid(b"blob", r1), base=0)]
e = PackEntity(P.write_pack(top, es))
assert e.stream(es[1].sha).read() == r1
''')

bug("C05-truncated-insert", "C05", "a delta ending inside of its last insert command, whose declared result size is what can be inserted",
    "a delta which ends inside a command is taken for complete",
    {"gitdb/fun.py": [("            write(db[i:i + c])\n            i += c\n", "            data = db[i:i + c]\n            write(data)\n            i += len(data)\n")]},
    HEAD + '''
import packlib as P
from gitdb.pack import PackEntity
base = b"0123456789" * 50
E = P.Entry
for cut in range(1, 6):
    cmds = [("c", 0, 200), ("raw", bytes([10]) + b"abcdefghij"[:10 - cut])]
    delta = P.enc_delta(len(base), 210 - cut, cmds)
    es = [E("whole", base, P.oid(b"blob", base), b"blob"), E("ofs", delta, P.oid(b"blob", b"%d" % cut), base=0)]
    e = PackEntity(P.write_pack(top, es))
    try:
        got = e.stream(es[1].sha).read()
    except Exception:
        continue
    raise SystemExit("resolved to %d bytes" % len(got))
''')

bug("C06-copy-to-end", "C06", "a delta copying up to the very last byte of its base",
    "merging gives up at copies which end with their base",
    {"gitdb/fun.py": [("                        rbound > base_size):\n", "                        rbound >= base_size):\n")]},
    HEAD + '''
import packlib as P
from gitdb.fun import connect_deltas
class DS:
    def __init__(self, d): self.d = d; self.size = len(d)
    def read(self, n=-1): return self.d
base = bytes(range(200))
d1 = [("c", 50, 150), ("i", b"abc")]; r1 = P.apply_cmds(base, d1)
d2 = [("i", b"x"), ("c", 10, 143)]; r2 = P.apply_cmds(r1, d2)
dcl = connect_deltas([DS(P.enc_delta(len(r1), len(r2), d2)), DS(P.enc_delta(len(base), len(r1), d1))])
out = BytesIO(); dcl.apply(base, out.write)
assert out.getvalue() == r2
dcl.check_integrity(len(r2))
''')

bug("C06-slice-inside", "C06", "a chunk of the later delta lying strictly inside of one chunk of the earlier delta",
    "a piece out of the middle of a chunk keeps the rest of the chunk",
    {"gitdb/fun.py": [("        tcd.ts = min(tcd.ts, size)\n", "        tcd.ts = min(cd.ts, size)\n")]},
    HEAD + '''
import packlib as P
from gitdb.fun import connect_deltas
class DS:
    def __init__(self, d): self.d = d; self.size = len(d)
    def read(self, n=-1): return self.d
base = bytes(range(200))
for off, n in ((20, 30), (10, 80), (95, 20), (0, 150), (60, 90)):
    d1 = [("c", 50, 100), ("i", b"abc" * 20)]; r1 = P.apply_cmds(base, d1)
    d2 = [("i", b"x"), ("c", off, n), ("i", b"y")]; r2 = P.apply_cmds(r1, d2)
    dcl = connect_deltas([DS(P.enc_delta(len(r1), len(r2), d2)), DS(P.enc_delta(len(base), len(r1), d1))])
    out = BytesIO(); dcl.apply(base, out.write)
    assert out.getvalue() == r2, (off, n)
    dcl.check_integrity(len(r2))
''')

bug("C07-crc-header", "C07", "an object whose pack header takes more than three bytes (256 KiB and more)",
    "the checksum in the index covers only the first three bytes of an entry's header",
    {"gitdb/pack.py": [("crc = crc32(hdr)", "crc = crc32(hdr[:3])")]},
    HEAD + '''
import struct
from gitdb.pack import PackEntity
from gitdb import IStream
class O:
    pass
from gitdb.base import OStream
def obj(data):
    return OStream(hashlib.sha1(b"blob %d\\0" % len(data) + data).digest(), b"blob", len(data), BytesIO(data))
objs = [b"x" * n for n in (0, 100, 5000, 262143, 262144, 400000)]
p, i = BytesIO(), BytesIO()
PackEntity.write_pack([obj(d) for d in objs], p.write, i.write)
name = os.path.join(top, "pack-" + "1" * 40)
open(name + ".pack", "wb").write(p.getvalue()); open(name + ".idx", "wb").write(i.getvalue())
e = PackEntity(name + ".pack")
for d in objs:
    assert e.is_valid_stream(obj(d).binsha, use_crc=True), len(d)
''')

bug("C07-offset-31-bits", "C07", "an entry at an offset between 2 and 4 GiB",
    "offsets which do not fit into 31 bits are written as they are if they fit into 32 bits, readers take them for references into the table of large offsets",
    {"gitdb/pack.py": [("if ofs > 0x7fffffff:", "if ofs > 0xffffffff:")]},
    HEAD + '''
import struct
from gitdb.pack import IndexWriter, PackIndexFile
w = IndexWriter()
offs = [12, 0x7fffffff, 0x80000000, 0x9abcdef0, 0xffffffff, 0x100000000, 0x123456789a]
for k, o in enumerate(offs):
    w.append(hashlib.sha1(b"%d" % k).digest(), k, o)
f = open(os.path.join(top, "pack-x.idx"), "wb")
w.write(b"\\1" * 20, f.write); f.close()
x = PackIndexFile(f.name)
for k, o in enumerate(offs):
    i = x.sha_to_index(hashlib.sha1(b"%d" % k).digest())
    assert x.offset(i) == o, (o, x.offset(i))
''')

bug("C08-large-offset", "C08", "an index with an offset beyond 4 GiB",
    "large offsets lose their upper half",
    {"gitdb/pack.py": [('offset = unpack_from(">Q", self._cursor.map(), self._pack_64_offset + (offset & ~0x80000000) * 8)[0]',
                        'offset = unpack_from(">QL"[1:] if False else ">L", self._cursor.map(), self._pack_64_offset + (offset & ~0x80000000) * 8 + 4)[0]')]},
    HEAD + '''
import packlib as P
from gitdb.pack import PackIndexFile
offs = [12, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789a]
items = [(hashlib.sha1(b"%d" % k).digest(), k, o) for k, o in enumerate(offs)]
p = os.path.join(top, "a.idx")
open(p, "wb").write(P.build_index(items, b"1" * 20))
x = PackIndexFile(p)
for s, c, o in items:
    assert x.offset(x.sha_to_index(s)) == o
''')

bug("C09-first-candidate", "C09", "an abbreviation matching two objects in different parts of a composite database",
    "a composite database stops at the first part which knows a match",
    {"gitdb/db/base.py": [("                if candidate and candidate != full_bin_sha:\n                    raise AmbiguousObjectName(partial_hexsha)\n                candidate = full_bin_sha\n",
                           "                candidate = full_bin_sha\n                break\n")]},
    HEAD + '''
import packlib as P
from gitdb import GitDB
from gitdb.exc import AmbiguousObjectName
seen, k = {}, 0
while True:
    d = b"%d" % k; k += 1
    h = P.oid(b"blob", d).hex()[:4]
    if h in seen:
        a, b = seen[h], d
        break
    seen[h] = d
os.mkdir(top + "/pack")
P.write_loose(top, b"blob", a)
P.write_pack(top + "/pack", [P.Entry("whole", b, P.oid(b"blob", b), b"blob")])
db = GitDB(top)
try:
    db.partial_to_complete_sha_hex(h)
except AmbiguousObjectName:
    sys.exit(0)
sys.exit("not ambiguous")
''')

bug("C10-ref-then-ofs", "C10", "a reference delta whose base is an offset delta in the same pack",
    "the search for the base ends at the first entry which is no reference delta",
    {"gitdb/pack.py": [("            while stream.type_id in delta_types:\n", "            while stream.type_id == REF_DELTA:\n")]},
    HEAD + '''
import packlib as P
from gitdb.pack import PackEntity
base = bytes(range(200)) * 4
d1 = [("c", 50, 150), ("i", b"abc")]; r1 = P.apply_cmds(base, d1)
d2 = [("i", b"x"), ("c", 10, 143)]; r2 = P.apply_cmds(r1, d2)
E = P.Entry
es = [E("whole", base, P.oid(b"blob", base), b"blob"),
      E("ofs", P.enc_delta(len(base), len(r1), d1), P.oid(b"blob", r1), base=0),
      E("ref", P.enc_delta(len(r1), len(r2), d2), P.oid(b"blob", r2), base=P.oid(b"blob", r1))]
e = PackEntity(P.write_pack(top, es))
for x, data in zip(es, (base, r1, r2)):
    assert e.stream(x.sha).read() == data
''')

bug("C10-info-size", "C10", "the size of a delta object of more than 2 MiB",
    "only the first bytes of a delta are looked at for its sizes, which is not enough for large objects",
    {"gitdb/pack.py": [("buf = streams[0].read(512)", "buf = streams[0].read(6)")]},
    HEAD + '''
import packlib as P
from gitdb.pack import PackEntity
base = b"0123456789abcdef" * 200000
d1 = [("c", 0, 65536)] * 40 + [("i", b"abc")]; r1 = P.apply_cmds(base, d1)
E = P.Entry
es = [E("whole", base, P.oid(b"blob", base), b"blob"),
      E("ofs", P.enc_delta(len(base), len(r1), d1), P.oid(b"blob", r1), base=0)]
e = PackEntity(P.write_pack(top, es))
assert e.info(es[1].sha).size == len(r1)
assert e.stream(es[1].sha).read() == r1
''')

bug("C11-crc-chunks", "C11", "an entry of more than one verification chunk (4 MB compressed), damaged in its first part",
    "the checksum is started anew for every chunk, only the last chunk counts",
    {"gitdb/pack.py": [("this_crc_value = crc_update(pack_data[cur_pos:cur_pos + size], this_crc_value)",
                        "this_crc_value = crc_update(pack_data[cur_pos:cur_pos + size])")]},
    HEAD + '''
import packlib as P
from gitdb.pack import PackEntity
rnd = random.Random(1)
E = P.Entry
objs = [rnd.randbytes(n) for n in (10, 5000000)]
es = [E("whole", d, P.oid(b"blob", d), b"blob", zopts={"level": 0}) for d in objs]
e = PackEntity(P.write_pack(top, es))
for x in es:
    assert e.is_valid_stream(x.sha, use_crc=True)
''')

bug("C12-count", "C12", "an iterator providing fewer objects than announced",
    "packs with fewer objects than their header declares are put in place",
    {"gitdb/pack.py": [("        if actual_count != object_count:\n", "        if actual_count > object_count:\n")]},
    HEAD + '''
import struct
from gitdb.pack import PackEntity
from gitdb.base import OStream
def obj(data):
    return OStream(hashlib.sha1(b"blob %d\\0" % len(data) + data).digest(), b"blob", len(data), BytesIO(data))
try:
    PackEntity.create(iter([obj(b"a"), obj(b"b")]), top, object_count=3)
except ValueError:
    pass
for f in os.listdir(top):
    assert not f.startswith("pack-"), f
''')

bug("C13-two-removed", "C13", "two packs removed between two refreshes, the wrong ones adjacent in the list",
    "the packs to drop are determined by their positions before any of them was dropped",
    {"gitdb/db/pack.py": [("        for pack_file in (our_pack_files - pack_files):\n            del_index = -1\n            for i, item in enumerate(self._entities):\n",
                           "        entities = list(self._entities)\n        for pack_file in (our_pack_files - pack_files):\n            del_index = -1\n            for i, item in enumerate(entities):\n"),
                          ("            del(self._entities[del_index])\n", "            del(self._entities[min(del_index, len(self._entities) - 1)])\n")]},
    HEAD + '''
import packlib as P
from gitdb import PackedDB
E = P.Entry
packs = []
for k in range(5):
    d = b"object %d" % k
    packs.append((P.write_pack(top, [E("whole", d, P.oid(b"blob", d), b"blob")]), P.oid(b"blob", d)))
import itertools
for a, b in itertools.combinations(range(5), 2):
    db = PackedDB(top)
    assert all(db.has_object(s) for _, s in packs)
    moved = []
    for k in (a, b):
        for p in (packs[k][0], packs[k][0][:-4] + "idx"):
            os.rename(p, p + ".off"); moved.append(p)
    db.update_cache(True)
    for k, (_, s) in enumerate(packs):
        assert db.has_object(s) == (k not in (a, b)), (a, b, k)
    for p in moved:
        os.rename(p + ".off", p)
''')

bug("C14-refresh-or", "C14", "a composite database with several parts of which more than one changed since the last refresh",
    "the refresh stops at the first part which has news",
    {"gitdb/db/base.py": [("stat |= db.update_cache(force)", "stat = stat or db.update_cache(force)")]},
    HEAD + '''
import packlib as P
from gitdb import GitDB
E = P.Entry
a, b = top + "/a", top + "/b"
for x in (a, b):
    os.makedirs(x + "/pack")
os.mkdir(a + "/info")
open(a + "/info/alternates", "w").write(b + "\\n")
db = GitDB(a)
assert db.size() == 0
for k, x in enumerate((a, b)):
    d = b"object %d" % k
    P.write_pack(x + "/pack", [E("whole", d, P.oid(b"blob", d), b"blob")])
db.update_cache(True)
for k in range(2):
    assert db.has_object(P.oid(b"blob", b"object %d" % k)), k
''')

bug("C15-alphabetical", "C15", "several new alternates which are not listed in alphabetical order",
    "new alternates are consulted in alphabetical order",
    {"gitdb/db/ref.py": [("added_paths = sorted(ref_paths_set - cur_ref_paths_set, key=lambda p: ref_paths.index(p))",
                          "added_paths = sorted(ref_paths_set - cur_ref_paths_set)")]},
    HEAD + '''
from gitdb import ReferenceDB
names = ["m", "z", "b", "k", "a"]
for n in names:
    os.makedirs(top + "/" + n)
open(top + "/alt", "w").write("\\n".join(top + "/" + n for n in names) + "\\n")
db = ReferenceDB(top + "/alt")
assert [os.path.basename(d.root_path()) for d in db.databases()] == names
''')

bug("C16-open-denied", "C16", "a file which exists and cannot be opened for reading (not readable, too many open files)",
    "the lock stays if opening the locked file fails with something else than that it doesn't exist",
    {"gitdb/util.py": [("            except:\n                # assure we release our lockfile\n", "            except FileNotFoundError:\n                # assure we release our lockfile\n")]},
    HEAD + '''
from gitdb.util import LockedFD
p = top + "/f"
open(p, "w").write("x")
real = os.open
def deny(path, *a, **k):
    if path == p:
        raise PermissionError(13, "denied")
    return real(path, *a, **k)
os.open = deny
try:
    LockedFD(p).open()
except PermissionError:
    pass
os.open = real
assert os.listdir(top) == ["f"], os.listdir(top)
''')

bug("C17-copy-duplicates", "C17", "the same id several times in the list of objects to copy",
    "which objects the target has is determined before the first one is copied",
    {"gitdb/db/mem.py": [("        for sha in sha_iter:\n            if odb.has_object(sha):\n                continue\n",
                          "        shas = list(sha_iter)\n        missing = set(s for s in shas if not odb.has_object(s))\n        for sha in shas:\n            if sha not in missing:\n                continue\n")]},
    HEAD + '''
from gitdb import MemoryDB, IStream, LooseObjectDB
m = MemoryDB()
s = [m.store(IStream("blob", 3, BytesIO(b"%03d" % k))).binsha for k in range(3)]
assert m.stream_copy([s[0], s[1], s[0], s[2], s[1]], LooseObjectDB(top)) == 3
n = MemoryDB()
assert m.stream_copy([s[0], s[1], s[0], s[2], s[1]], n) == 3
''')

bug("C18-refused-installed", "C18", "an unsuitable output stream offered to a loose database, objects stored afterwards",
    "an unsuitable output stream is refused after it was installed",
    {"gitdb/db/loose.py": [("        if stream is not None and not isinstance(stream, Sha1Writer):\n", "        previous = super().set_ostream(stream)\n        if stream is not None and not isinstance(stream, Sha1Writer):\n"),
                           ("        return super().set_ostream(stream)\n", "        return previous\n")]},
    HEAD + '''
from gitdb import LooseObjectDB, IStream
db = LooseObjectDB(top)
try:
    db.set_ostream(BytesIO())
except TypeError:
    pass
else:
    sys.exit("accepted")
assert db.ostream() is None
assert db.has_object(db.store(IStream("blob", 3, BytesIO(b"abc"))).binsha)
''')

bug("C20-empty-file", "C20", "reading an object whose file cannot be mapped, as it is empty and fails afterwards",
    "the descriptor of a file is closed only if its contents could be mapped",
    {"gitdb/util.py": [("    fd = os.open(filepath, os.O_RDONLY | getattr(os, 'O_BINARY', 0) | flags)\n    try:\n        return file_contents_ro(fd, stream, allow_mmap)\n    finally:\n        close(fd)\n    # END assure file is closed\n",
                        "    fd = os.open(filepath, os.O_RDONLY | getattr(os, 'O_BINARY', 0) | flags)\n    contents = file_contents_ro(fd, stream, allow_mmap)\n    if isinstance(contents, mmap.mmap):\n        close(fd)\n    # END assure file is closed\n    return contents\n")]},
    HEAD + '''
from gitdb import LooseObjectDB, IStream
db = LooseObjectDB(top)
s = db.store(IStream("blob", 3, BytesIO(b"abc"))).binsha
p = db.readable_db_object_path(s.hex().encode())
os.chmod(p, 0o644)
open(p, "wb").close()
before = len(os.listdir("/proc/self/fd"))
for _ in range(5):
    try:
        db.info(s)
    except Exception:
        pass
assert len(os.listdir("/proc/self/fd")) == before
''')

