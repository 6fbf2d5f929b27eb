exec(open("/verif/tools/bugs1.py").read().split('bug("C02')[0])

bug("C26-copy-beyond", "C26", "a source with more than is wanted, whose size is no multiple of the chunk",
    "the last request is for a whole chunk: bytes beyond the wanted ones are read and passed on",
    {"gitdb/fun.py": [("        cs = min(chunk_size, size - dbw)\n", "        cs = min(chunk_size, size)\n")]},
    HEAD + '''
from gitdb.fun import stream_copy, write_object
d = bytes(range(250))
src, dst = BytesIO(d), BytesIO()
assert stream_copy(src.read, dst.write, 100, 30) == 100
assert dst.getvalue() == d[:100] and src.tell() == 100
''')

bug("C26-index-moves", "C26", "an index or slice between reads of a file that is not mapped",
    "slices of contents which are not mapped move the position of the stream",
    {"gitdb/util.py": [("        return self.getvalue()[i]\n", """        if isinstance(i, slice):
            # without a copy of everything
            start, stop, step = i.indices(len(self))
            self._sio.seek(start)
            return self._sio.read(max(0, stop - start))[::step]
        return self._sio.getbuffer()[i]
""")]},
    HEAD + '''
from gitdb.util import file_contents_ro_filepath
p = os.path.join(top, "f")
open(p, "wb").write(bytes(range(100)))
x = file_contents_ro_filepath(p, stream=True, allow_mmap=False)
assert x.read(10) == bytes(range(10))
assert x[50:60] == bytes(range(50, 60))
assert x.read(10) == bytes(range(10, 20))
''')

bug("C26-descriptor-error", "C26", "a read of the file fails",
    "the descriptor of the path is closed only if its contents were provided",
    {"gitdb/util.py": [("""    try:
        return file_contents_ro(fd, stream, allow_mmap)
    finally:
        close(fd)
    # END assure file is closed
""", """    contents = file_contents_ro(fd, stream, allow_mmap)
    close(fd)
    return contents
""")]},
    HEAD + '''
import gitdb.util as u
p = os.path.join(top, "f")
open(p, "wb").write(bytes(range(100)))
n = len(os.listdir("/proc/self/fd"))
real = os.read
def fails(*a):
    raise OSError(5, "input/output error")
os.read = fails
try:
    u.file_contents_ro_filepath(p, allow_mmap=False)
    assert False
except OSError:
    pass
finally:
    os.read = real
assert len(os.listdir("/proc/self/fd")) == n
''')

bug("C26-length-left", "C26", "the length is asked for after something was read",
    "the length of contents which are not mapped is what is left to read",
    {"gitdb/util.py": [("        return len(self.getvalue())\n", "        return len(self._sio.getbuffer()[self._sio.tell():])\n")]},
    HEAD + '''
from gitdb.util import file_contents_ro_filepath
p = os.path.join(top, "f")
open(p, "wb").write(bytes(range(100)))
x = file_contents_ro_filepath(p, stream=True, allow_mmap=False)
assert len(x) == 100
x.read(10)
assert len(x) == 100
''')

bug("C26-count-of-writes", "C26", "a target that returns nothing or its own number of bytes",
    "the number of bytes copied is what the target's write returns",
    {"gitdb/fun.py": [("        data_len = len(data)\n        dbw += data_len\n        write(data)\n", "        data_len = len(data)\n        dbw += write(data) or data_len\n")]},
    HEAD + '''
from gitdb.fun import stream_copy
d = bytes(range(250))
out = []
def write(b):
    out.append(bytes(b))
    # a target that packs
    return (len(b) + 1) // 2
src = BytesIO(d)
assert stream_copy(src.read, write, 100, 30) == 100
assert b"".join(out) == d[:100]
''')

GIT = HEAD + '''
import subprocess
def git(*a, **kw):
    return subprocess.run(("git", "--git-dir", os.path.join(top, "r")) + a, check=True, capture_output=True, **kw).stdout
subprocess.run(["git", "init", "-q", "--bare", os.path.join(top, "r")], check=True)
odir = os.path.join(top, "r", "objects")
'''

bug("C27-same-number", "C27", "git repacks: packs are replaced by no more packs than there were",
    "a refresh looks at new packs only if there are more packs than are known",
    {"gitdb/db/pack.py": [("        for pack_file in (pack_files - our_pack_files):\n", "        for pack_file in (pack_files - our_pack_files if len(pack_files) > len(our_pack_files) else ()):\n")]},
    GIT + '''
from gitdb import GitDB
ids = []
for k in range(4):
    ids.append(git("hash-object", "-w", "--stdin", input=b"content %d" % k).strip())
    git("pack-objects", "-q", os.path.join(odir, "pack", "pack"), input=ids[-1] + b"\\n")
    git("prune-packed")
    if k == 2:
        db = GitDB(odir)
        assert all(db.has_object(bytes.fromhex(i.decode())) for i in ids)
git("repack", "-a", "-d", "-k", "-q")
db.update_cache(force=True)
for k, i in enumerate(ids):
    assert db.stream(bytes.fromhex(i.decode())).read() == b"content %d" % k
''')

bug("C27-sort-prefix", "C27", "a pack written by gitdb with two objects whose ids share their first bytes",
    "the entries of a written index are ordered by the first bytes of the ids only",
    {"gitdb/pack.py": [("        self._objs.sort(key=lambda o: o[0])\n", "        self._objs.sort(key=lambda o: o[0][:2])\n")]},
    GIT + '''
from gitdb import LooseObjectDB, IStream
from gitdb.pack import PackEntity
seen = {}
for k in range(1 << 20):
    d = b"%d" % k
    i = hashlib.sha1(b"blob %d\\0" % len(d) + d).digest()
    if i[:2] in seen:
        break
    seen[i[:2]] = d
db = LooseObjectDB(odir)
two = sorted((db.store(IStream("blob", len(x), BytesIO(x))).binsha for x in (d, seen[i[:2]])), reverse=True)
e = PackEntity.create([db.stream(x) for x in two], os.path.join(odir, "pack"))
git("verify-pack", e.index().path())
assert [bytes(e.index().sha(k)) for k in range(2)] == sorted(two)
assert all(e.index().sha_to_index(x) is not None for x in two)
''')

bug("C27-copy-64k", "C27", "a delta of git which copies 64 KiB at once",
    "a copy whose size is left out is taken for one byte less",
    {"gitdb/fun.py": [("            if not cp_size:\n                cp_size = 0x10000\n\n            rbound", "            if not cp_size:\n                cp_size = 0xffff\n\n            rbound")]},
    GIT + '''
from gitdb import GitDB
a = random.Random(3).randbytes(200000)
b = a[:150000] + b"x" + a[150000:]
ids = [git("hash-object", "-w", "--stdin", input=x).strip() for x in (a, b)]
git("pack-objects", "-q", "--window=10", os.path.join(odir, "pack", "pack"), input=b"\\n".join(ids) + b"\\n")
git("prune-packed")
db = GitDB(odir)
for i, x in zip(ids, (a, b)):
    assert db.stream(bytes.fromhex(i.decode())).read() == x
''')
