import os
exec(open("/verif/tools/bugs1.py").read().split('bug("C01')[0])

bug("C01-encoded-larger", "C01", "an already encoded object whose encoded form is more than 64 bytes longer than its content (incompressible content of some 100 KiB)",
    "only as many bytes as an encoded object should take at most are copied: larger ones are stored truncated",
    {"gitdb/db/loose.py": [("stream_copy(istream.read, writer.write, sys.maxsize, self.stream_chunk_size)", "stream_copy(istream.read, writer.write, istream.size + 64, self.stream_chunk_size)")]},
    HEAD + '''
from gitdb import LooseObjectDB, MemoryDB, IStream
rnd = random.Random(1)
m = MemoryDB()
db = LooseObjectDB(top)
for n in (0, 10, 1000, 100000, 1000000):
    d = rnd.randbytes(n)
    s = m.store(IStream("blob", n, BytesIO(d))).binsha
    m.stream_copy([s], db)
    assert db.stream(s).read() == d, n
''')

bug("C03-buffer-exact", "C03", "a read of exactly what is left of the buffer that was filled with the header",
    "a read which asks for exactly what is buffered falls through to decompressing without a limit",
    {"gitdb/stream.py": [("            if self._buflen >= size:\n", "            if self._buflen > size:\n")]},
    HEAD + '''
from gitdb.stream import DecompressMemMapReader
rnd = random.Random(1)
data = rnd.randbytes(30000)
m = zlib.compress(b"blob %d\\0" % len(data) + data)
t, n, s = DecompressMemMapReader.new(m)
left = s._buflen
assert s.read(left) == data[:left]
assert s.read(100) == data[left:left + 100]
assert s.read() == data[left + 100:]
''')

bug("C03-delta-rewind", "C03", "a delta object's stream, rewound after a part of it was read",
    "rewinding the stream of a delta object doesn't forget what was read",
    {"gitdb/stream.py": [("        self._br = 0\n        self._mm_target.seek(0)\n", "        self._br = min(self._br, self._mm_target.seek(0) or 0) if self._br == self._size else self._br\n        self._mm_target.seek(0)\n")]},
    HEAD + '''
import packlib as P
from gitdb.pack import PackEntity
base = bytes(range(200)) * 4
d1 = [("c", 50, 650), ("i", b"abc")]; r1 = P.apply_cmds(base, d1)
E = P.Entry
es = [E("whole", base, P.oid(b"blob", base), b"blob"), E("ofs", P.enc_delta(len(base), len(r1), d1), P.oid(b"blob", r1), base=0)]
e = PackEntity(P.write_pack(top, es))
st = e.stream(es[1].sha)
for k in (1, 100, 600):
    assert st.stream.read(k) == r1[:k]
    st.stream.seek(0)
    assert st.stream.read() == r1
    st.stream.seek(0)
''')

bug("C04-long-copy", "C04", "a copy command of more than 64 KiB, using the third length byte",
    "the third length byte of copy commands is shifted too little",
    {"gitdb/fun.py": [("cp_size |= (db[i] << 16)", "cp_size |= (db[i] << 8)", 2)]},
    HEAD + '''
import packlib as P
from gitdb.pack import PackEntity
base = b"".join(b"%08d" % i for i in range(30000))
d1 = [("c", 10, 0x21003), ("i", b"hello")]
r1 = P.apply_cmds(base, d1)
E = P.Entry
es = [E("whole", base, P.oid(b"blob", base), b"blob"),
      E("ofs", P.enc_delta(len(base), len(r1), d1, "long"), P.oid(b"blob", r1), base=0)]
e = PackEntity(P.write_pack(top, es))
assert e.stream(es[1].sha).read() == r1
''')

bug("C08-v1-size", "C08", "a version 1 index of which the last id is looked up",
    "the search leaves out the last candidate in the last slot of the fan-out table",
    {"gitdb/pack.py": [("        hi = self._fanout_table[first_byte]     # the upper, right bound of the bisection\n\n        # bisect",
                        "        hi = self._fanout_table[first_byte] - (first_byte == 255 and lo + 1 < self.size() and self._version == 1)\n\n        # bisect")]},
    HEAD + '''
import packlib as P
from gitdb.pack import PackIndexFile
items = [(bytes([b]) + hashlib.sha1(b"%d" % k).digest()[:19], 0, 12 + 30 * k) for k, b in enumerate([0, 3, 255, 255, 255])]
for v in (1, 2):
    p = os.path.join(top, "a%d.idx" % v)
    open(p, "wb").write(P.build_index(items, b"1" * 20, v))
    x = PackIndexFile(p)
    for s, _, o in items:
        assert x.offset(x.sha_to_index(s)) == o
''')

bug("C19-by-position", "C19", "packs being sorted anew by one thread while another one is going through them",
    "a lookup goes through the packs by position, asking for the current list each time: it misses a pack which moves",
    {"gitdb/db/pack.py": [("        for item in self._entities:\n            index = item[2](sha)\n", "        for pos in range(len(self._entities)):\n            item = self._entities[pos]\n            index = item[2](sha)\n")]},
    HEAD + '''
import threading
import packlib as P
from gitdb import PackedDB
sys.setswitchinterval(1e-6)
PackedDB._sort_interval = 1
E = P.Entry
objs = []
for k in range(4):
    ds = [b"object %d %d" % (k, i) for i in range(40)]
    P.write_pack(top, [E("whole", d, P.oid(b"blob", d), b"blob") for d in ds])
    objs += [(P.oid(b"blob", d), d) for d in ds]
db = PackedDB(top)
db.entities()
bad = []
def run(seed):
    rnd = random.Random(seed)
    for n in range(8000):
        # favour one pack at a time
        s, d = objs[rnd.randrange(40) + 40 * ((n // 50 + seed) % 4)]
        if not db.has_object(s):
            bad.append(d)
        if bad: return
ts = [threading.Thread(target=run, args=(k,)) for k in range(6)]
for t in ts: t.start()
for t in ts: t.join()
assert not bad, bad[:2]
''')

bug("C21-distance", "C21", "a delta more than 4 GiB behind its base",
    "the distance of an offset delta to its base is kept in 32 bits",
    {"gitdb/pack.py": [("        delta_info = delta_offset\n", "        delta_info = delta_offset & 0xffffffff\n")]},
    HEAD + '''
import struct
import packlib as P
from gitdb.pack import PackEntity
base = bytes(range(200)) * 4
d1 = [("c", 50, 650), ("i", b"abc")]; r1 = P.apply_cmds(base, d1)
name = top + "/pack-" + "1" * 40
at = (4 << 30) + 4096
with open(name + ".pack", "wb") as f:
    f.write(struct.pack(">4sLL", b"PACK", 2, 2) + P.obj_header(3, len(base)) + P.deflate(base))
    delta = P.enc_delta(len(base), len(r1), d1)
    f.seek(at)
    f.write(P.obj_header(6, len(delta)) + P.ofs_encode(at - 12) + P.deflate(delta) + b"2" * 20)
with open(name + ".idx", "wb") as f:
    f.write(P.build_index([(P.oid(b"blob", base), 1, 12), (P.oid(b"blob", r1), 2, at)], b"2" * 20))
e = PackEntity(name + ".pack")
assert e.stream(P.oid(b"blob", r1)).read() == r1
''')
