exec(open("/verif/tools/bugs1.py").read().split('bug("C02')[0])

bug("C25-end-after-error", "C25", "a truncated object whose stream is read again after the first read of it raised",
    "when the compressed data is used up the stream takes its size from what it got: after one error it claims to be at its end",
    {"gitdb/stream.py": [("        self._cwe = self._cws + len(indata)\n", "        self._cwe = self._cws + len(indata)\n        if not indata:\n            self._s = self._br\n        # END nothing left to decompress\n"),
                         ("        self._cbr += len(indata) - unused_datalen\n", "        self._cbr += len(indata) - min(unused_datalen, len(indata))\n")]},
    HEAD + '''
from gitdb import LooseObjectDB
d = random.Random(3).randbytes(50000)
i = hashlib.sha1(b"blob 50000\\0" + d).hexdigest()
os.makedirs(os.path.join(top, i[:2]))
with open(os.path.join(top, i[:2], i[2:]), "wb") as f:
    f.write(zlib.compress(b"blob 50000\\0" + d)[:30000])
s = LooseObjectDB(top).stream(bytes.fromhex(i))
got, errors = b"", 0
while errors < 3:
    try:
        b = s.read(4096)
    except Exception:
        errors += 1
        continue
    assert b, "end after %d bytes of %d" % (len(got), s.size)
    got += b
assert d.startswith(got)
''')

bug("C05-second-read", "C05", "a malformed delta whose stream is read again after the first read of it raised",
    "the result of a delta is published before it was computed: the first read raises, the next ones deliver what there is",
    {"gitdb/stream.py": [("        tbuf = allocate_memory(target_size)\n", "        self._mm_target = tbuf = allocate_memory(target_size)\n"),
                         ("        final_target_size = None\n", "        self._size = final_target_size = target_size\n")]},
    HEAD + '''
import packlib as pl
from gitdb.pack import PackEntity
base = bytes(range(200))
def pack(cmds, size, name):
    d = pl.enc_delta(len(base), size, cmds)
    es = [pl.Entry("whole", base, pl.oid(b"blob", base), typ=b"blob"), pl.Entry("ofs", d, b"\\7" * 20, base=0)]
    return PackEntity(pl.write_pack(top, es, name=name))
good = pack([("c", 10, 100), ("i", b"xyz")], 103, "a" * 40).stream(b"\\7" * 20)
assert good.read() == base[10:110] + b"xyz"
for k, (cmds, size) in enumerate([([("c", 150, 100)], 100), ([("c", 0, 10)], 30), ([("r", )], 5), ([("c", 0, 100)], 50)]):
    for n in (0, 7):
        e = pack(cmds, size, "%040x" % (2 * k + (n > 0)))
        s = None
        for _ in range(3):
            try:
                s = s or e.stream(b"\\7" * 20)
                b = s.read(n)
            except Exception:
                continue
            assert False, "delivered %d bytes" % len(b)
''')

bug("C24-mtime-first", "C24", "a refresh of a packed database which fails after it looked at the directory, then a plain one",
    "the time of the directory is noted before it was read: the refresh after a failed one sees no need to look",
    {"gitdb/db/pack.py": [("        if not force and stat.st_mtime <= self._st_mtime:\n", "        known, self._st_mtime = self._st_mtime, stat.st_mtime\n        if not force and stat.st_mtime <= known:\n")]},
    HEAD + '''
import packlib as pl
from gitdb.db import PackedDB
def pack(d, n):
    pl.write_pack(top, [pl.Entry("whole", d, pl.oid(b"blob", d), typ=b"blob")])
    os.utime(top, (1000000000 + n, 1000000000 + n))
    return pl.oid(b"blob", d)
a = pack(b"first", 0)
db = PackedDB(top)
assert db.has_object(a)
b = pack(b"second", 5)
real = os.listdir
def fails(*a):
    raise PermissionError(13, "not now")
os.listdir = fails
try:
    db.update_cache()
except OSError:
    pass
finally:
    os.listdir = real
db.update_cache()
assert db.has_object(a) and db.has_object(b)
''')

bug("C23-header-window", "C23", "a loose object whose header has more than 14 bytes",
    "only so much of a loose object is decompressed for its header that sizes with many digits are cut off",
    {"gitdb/fun.py": [("    decompress_size = 8192      # is used in cgit as well\n", "    decompress_size = 20        # type, a blank and the digits of the size\n")]},
    HEAD + '''
from gitdb.fun import loose_object_header_info, loose_object_header
for t in (b"blob", b"tree", b"commit", b"tag"):
    for n in (0, 5, 10 ** 8, (1 << 40) + 1, 10 ** 14, (1 << 64) - 1):
        assert loose_object_header_info(zlib.compress(loose_object_header(t, n) + b"x" * 100)) == (t, n), (t, n)
''')

bug("C23-header-32-bits", "C23", "an entry of a pack with 4 GiB or more",
    "sizes of entries are kept to 32 bits while they are read",
    {"gitdb/fun.py": [("        size += (c & 0x7f) << s\n        s += 7\n", "        size += ((c & 0x7f) << s) & 0xffffffff\n        s += 7\n", 1)]},
    HEAD + '''
from gitdb.fun import pack_object_header_info, create_pack_object_header
for n in (0, 15, 16, 5000, (1 << 32) - 1, 1 << 32, (1 << 40) + 12345):
    h = bytes(create_pack_object_header(3, n))
    assert pack_object_header_info(h + b"abc") == (3, n, len(h)), n
''')

bug("C22-partial-hash", "C22", "a write on a descriptor which takes less than it was given, and a caller which goes on",
    "bytes which a descriptor did not take are not reported once the compressor has taken them",
    {"gitdb/stream.py": [("        bytes_written = write(self.fd, cdata)\n\n        if bytes_written != len(cdata):\n            raise self.exc\n",
                          "        bytes_written = 0\n        while cdata and bytes_written != len(cdata):\n            chunk = write(self.fd, cdata[bytes_written:])\n            if not chunk:\n                raise self.exc\n            bytes_written += chunk + (chunk & 1)\n            bytes_written = min(bytes_written, len(cdata))\n")]},
    HEAD + '''
import gitdb.stream
from gitdb.stream import FDCompressedSha1Writer
real = os.write
sizes = [333, 100, 5]
def short(fd, d):
    n = sizes.pop() if sizes and len(d) > 400 else len(d)
    return real(fd, bytes(d)[:n])
gitdb.stream.write = short
rnd = random.Random(8)
data = [rnd.randbytes(40000) for _ in range(3)]
p = os.path.join(top, "x")
fd = os.open(p, os.O_CREAT | os.O_WRONLY)
w = FDCompressedSha1Writer(fd)
ok = True
try:
    try:
        for d in data:
            assert w.write(d) == len(d)
    finally:
        w.close()
except OSError:
    ok = False
if ok:
    assert zlib.decompress(open(p, "rb").read()) == b"".join(data)
''')

