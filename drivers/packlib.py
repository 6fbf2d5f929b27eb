"""Independent writer of git packs, pack indices, loose objects and deltas (knows nothing of gitdb)."""
import hashlib
import os
import struct
import zlib

TYPES = {b"commit": 1, b"tree": 2, b"blob": 3, b"tag": 4}
OFS, REF = 6, 7


def oid(typ, data):
    return hashlib.sha1(typ + b" " + str(len(data)).encode() + b"\0" + data).digest()


def deflate(data, level=1, strategy=zlib.Z_DEFAULT_STRATEGY, wbits=15, flush_every=0, full=False, mem=8):
    c = zlib.compressobj(level, zlib.DEFLATED, wbits, mem, strategy)
    out = []
    if flush_every:
        for i in range(0, len(data), flush_every):
            out.append(c.compress(data[i:i + flush_every]))
            out.append(c.flush(zlib.Z_FULL_FLUSH if full else zlib.Z_SYNC_FLUSH))
        if not data:
            out.append(c.flush(zlib.Z_SYNC_FLUSH))
    else:
        out.append(c.compress(data))
    out.append(c.flush())
    return b"".join(out)


def varint(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def obj_header(typ, size, pad=0):
    c = (typ << 4) | (size & 15)
    size >>= 4
    out = bytearray()
    while size or pad:
        out.append(c | 0x80)
        if size == 0:
            pad -= 1
        c = size & 0x7f
        size >>= 7
    out.append(c)
    return bytes(out)


def ofs_encode(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        n -= 1
        out.insert(0, 0x80 | (n & 0x7f))
        n >>= 7
    return bytes(out)


# ---- deltas: commands are ("c", offset, size) and ("i", bytes) and ("r",) reserved, ("raw", bytes)

def enc_copy(off, size, style="min"):
    """style: min - only non-zero bytes; full - every byte present; implicit - 64K as length 0"""
    op = 0x80
    arg = bytearray()
    for k in range(4):
        b = (off >> (8 * k)) & 0xff
        if b or style == "full":
            op |= 1 << k
            arg.append(b)
    sz = 0 if (size == 0x10000 and style != "long") else size
    for k in range(3):
        b = (sz >> (8 * k)) & 0xff
        if b or (style == "full" and sz):
            op |= 0x10 << k
            arg.append(b)
    return bytes([op]) + bytes(arg)


def enc_delta(src_size, dst_size, cmds, style="min", rnd=None):
    out = bytearray(varint(src_size) + varint(dst_size))
    for c in cmds:
        if c[0] == "c":
            st = style if style != "mixed" else rnd.choice(["min", "full", "long"])
            out += enc_copy(c[1], c[2], st)
        elif c[0] == "i":
            d = c[1]
            for k in range(0, len(d), 127):
                p = d[k:k + 127]
                out.append(len(p))
                out += p
        elif c[0] == "r":
            out.append(0)
        else:
            out += c[1]
    return bytes(out)


def apply_cmds(base, cmds):
    out = bytearray()
    for c in cmds:
        out += base[c[1]:c[1] + c[2]] if c[0] == "c" else c[1]
    return bytes(out)


class Entry:
    __slots__ = ("kind", "typ", "data", "base", "sha", "offset", "size", "crc", "end", "zopts", "pad", "zoff")

    def __init__(self, kind, data, sha, typ=None, base=None, zopts=None, pad=0):
        # kind: "whole" (data = content), "ofs" (base = Entry index), "ref" (base = 20 byte id); data = delta bytes
        self.kind, self.data, self.sha, self.typ, self.base, self.zopts, self.pad = kind, data, sha, typ, base, zopts or {}, pad


def build_pack(entries, count=None, tail=b""):
    """pack bytes; sets offset/crc/end of the entries"""
    out = bytearray(struct.pack(">4sLL", b"PACK", 2, len(entries) if count is None else count))
    for e in entries:
        e.offset = len(out)
        if e.kind == "whole":
            h = obj_header(TYPES[e.typ], len(e.data), e.pad)
        elif e.kind == "ofs":
            h = obj_header(OFS, len(e.data), e.pad) + ofs_encode(e.offset - entries[e.base].offset if isinstance(e.base, int) else e.base(e.offset))
        else:
            h = obj_header(REF, len(e.data), e.pad) + e.base
        out += h
        e.zoff = len(out)
        out += deflate(e.data, **e.zopts)
        e.end = len(out)
        e.crc = zlib.crc32(bytes(out[e.offset:e.end])) & 0xffffffff
    out += hashlib.sha1(bytes(out)).digest()
    return bytes(out)


def build_index(items, pack_sha, version=2, force64=False):
    """items: (sha, crc, offset)"""
    items = sorted(items, key=lambda x: x[0])
    fan = [0] * 256
    for s, _, _ in items:
        fan[s[0]] += 1
    for i in range(1, 256):
        fan[i] += fan[i - 1]
    body = b"".join(struct.pack(">L", f) for f in fan)
    if version == 1:
        body += b"".join(struct.pack(">L", o) + s for s, _, o in items)
    else:
        body = b"\xfftOc" + struct.pack(">L", 2) + body
        body += b"".join(s for s, _, _ in items)
        body += b"".join(struct.pack(">L", c) for _, c, _ in items)
        big = []
        for _, _, o in items:
            if o > 0x7fffffff or (force64 is True) or (callable(force64) and force64(o)):
                body += struct.pack(">L", 0x80000000 | len(big))
                big.append(o)
            else:
                body += struct.pack(">L", o)
        body += b"".join(struct.pack(">Q", o) for o in big)
    body += pack_sha
    return body + hashlib.sha1(body).digest()


def write_pack(d, entries, version=2, name=None, force64=False, index_items=None):
    """write pack-<sha>.pack/.idx below directory d, return the pack path"""
    p = build_pack(entries)
    name = name or hashlib.sha1(b"".join(sorted(e.sha for e in entries)) + p[-20:]).hexdigest()
    path = os.path.join(d, "pack-%s.pack" % name)
    idx = build_index(index_items or [(e.sha, e.crc, e.offset) for e in entries], p[-20:], version, force64)
    with open(path, "wb") as f:
        f.write(p)
    with open(path[:-5] + ".idx", "wb") as f:
        f.write(idx)
    return path


def write_loose(root, typ, data, **z):
    s = oid(typ, data)
    h = s.hex()
    os.makedirs(os.path.join(root, h[:2]), exist_ok=True)
    p = os.path.join(root, h[:2], h[2:])
    if not os.path.exists(p):
        with open(p + ".new", "wb") as f:
            f.write(deflate(typ + b" " + str(len(data)).encode() + b"\0" + data, **z))
        os.chmod(p + ".new", 0o444)
        os.rename(p + ".new", p)
    return s


WORDS = [w.encode() for w in "the object database stores every blob tree commit and tag under its own name "
         "so that a reader may find it again quickly whatever happened before".split()]


def content(rnd, size, kind):
    if kind == "zero":
        return b"\0" * size
    if kind == "random":
        return rnd.randbytes(size)
    if kind == "text":
        out = bytearray()
        while len(out) < size:
            out += rnd.choice(WORDS) + (b"\n" if rnd.random() < .1 else b" ")
            if rnd.random() < .05:
                out += str(rnd.random()).encode()
        return bytes(out[:size])
    if kind == "runs":
        out = bytearray()
        while len(out) < size:
            out += bytes([rnd.randrange(256)]) * rnd.choice([1, 2, 300, 5000])
        return bytes(out[:size])
    # mixed: alternating compressible and incompressible areas
    out = bytearray()
    while len(out) < size:
        out += content(rnd, rnd.choice([10, 700, 9000]), rnd.choice(["zero", "random", "text"]))
    return bytes(out[:size])
