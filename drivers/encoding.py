"""C23: headers and ids written and read by the library"""
import mmap
import zlib
from drv import *
from gitdb.fun import create_pack_object_header, pack_object_header_info, msb_size, loose_object_header, loose_object_header_info
from gitdb.util import bin_to_hex, hex_to_bin, to_bin_sha, to_hex_sha

limit(10)


def bits(v):
    return [int(c) for c in bin(v)[:1:-1]] if isinstance(v, int) and v > 0 else [] if v == 0 else [2]


def memory(r, b):
    k = r.randrange(4)
    if k == 0:
        return b
    if k == 1:
        return bytearray(b)
    if k == 2 or not b:
        return memoryview(b)
    m = mmap.mmap(-1, len(b))
    m.write(b)
    return m


def num(v):
    return v if isinstance(v, int) and abs(v) < 1 << 31 else -1


def unpack(r, b, ev):
    out, v = call(pack_object_header_info, memory(r, b))
    e = {"op": "unpack", "bytes": list(b), "out": out, "t": -1, "bits": [], "len": -1}
    if out == "ok":
        e.update(t=num(v[0]), bits=bits(v[1]), len=num(v[2]))
    ev.append(e)


def msb(r, b, at, ev):
    # (delta streams are read into strings)
    out, v = call(msb_size, b, at) if at or r.random() < .5 else call(msb_size, b)
    e = {"op": "msb", "bytes": list(b), "at": at, "out": out, "bits": [], "end": -1}
    if out == "ok":
        e.update(bits=bits(v[1]), end=num(v[0]))
    ev.append(e)


def run(job):
    r = rng("enc", job["n"])
    ev = []
    current({}, ev)
    for c in job.get("cases", []):
        data = bytes(c["data"])
        if c["what"] == "pack":
            v = sum(b << k for k, b in enumerate(c["bits"]))
            out, h = call(create_pack_object_header, c["t"], v)
            ev.append({"op": "pack", "t": c["t"], "bits": c["bits"], "out": out, "bytes": list(bytes(h)) if out == "ok" else []})
            unpack(r, data, ev)
            unpack(r, data[:r.randrange(len(data) + 1)] or b"\x80", ev)
        else:
            at = r.choice([0, 0, 1, 3, 200])
            msb(r, r.randbytes(at) + data, at, ev)
            msb(r, data[:r.randrange(len(data) + 1)], 0, ev)
    for v in job.get("sizes", []):
        v = int(v)
        t = r.randrange(1, 8)
        out, h = call(create_pack_object_header, t, v)
        ev.append({"op": "pack", "t": t, "bits": bits(v), "out": out, "bytes": list(bytes(h)) if out == "ok" else []})
        if out == "ok":
            unpack(r, bytes(h) + r.randbytes(r.choice([0, 1, 30])), ev)
        ty = r.choice([b"blob", b"tree", b"commit", b"tag"])
        out, h = call(loose_object_header, r.choice([ty, ty.decode()]), v)
        dec = [int(c) for c in str(v)]
        ev.append({"op": "loose", "type": list(ty), "dec": dec, "out": out, "bytes": list(bytes(h)) if out == "ok" else []})
        if out == "ok":
            body = r.choice([b"", b"\0", b"x 1\0", b"\0 blob 5\0" + r.randbytes(40), r.randbytes(20000)])
            for lvl in (r.choice([0, 1, 6, 9]), ):
                out, g = call(loose_object_header_info, memory(r, zlib.compress(ty + b" %d\0" % v + body, lvl)))
                e = {"op": "unloose", "type": list(ty), "dec": dec, "out": out, "gtype": [], "gdec": []}
                if out == "ok" and isinstance(g[0], bytes) and isinstance(g[1], int) and g[1] >= 0:
                    e.update(gtype=list(g[0]), gdec=[int(c) for c in str(g[1])])
                ev.append(e)
    for _ in range(job.get("ids", 0)):
        b = r.choice([r.randbytes(20), bytes(20), b"\xff" * 20, b"\n" * 20, r.randbytes(20)])
        for f, g in ((bin_to_hex, hex_to_bin), (to_hex_sha, to_bin_sha)):
            out, h = call(f, b)
            e = {"op": "hex", "bin": list(b), "out": out, "digits": [], "back": []}
            if out == "ok":
                e["digits"] = list(h) if isinstance(h, bytes) else list(str(h).encode())
                form = r.choice([h, h.decode() if isinstance(h, bytes) else h, h.upper()])
                out, k = call(g, form)
                e.update(out=out, back=list(k) if out == "ok" and isinstance(k, bytes) else [])
            ev.append(e)
        out, k = call(to_bin_sha, b)
        out2, h = call(to_hex_sha, b.hex().encode())
        ev.append({"op": "hex", "bin": list(b), "out": out if out != "ok" else out2, "digits": list(h) if out2 == "ok" and isinstance(h, bytes) else [],
                   "back": list(k) if out == "ok" and isinstance(k, bytes) else []})
    emit({}, ev, "")


for n, job in jobs():
    run(job)
