"""C27: one repository, used by git and gitdb in turns"""
import hashlib
import shutil
import subprocess
from io import BytesIO
from drv import *
import packlib as pl
from gitdb import GitDB, IStream
from gitdb.pack import PackEntity
from gitdb.util import hex_to_bin

limit(20)
ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": SCRATCH, "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null", "LC_ALL": "C",
       "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b"}


class Broken(Exception):
    """git can't do its work: something is wrong with the files"""


def git(d, *a, inp=b"", okay=(0, )):
    p = subprocess.run(["git", "-c", "core.fsync=none", "-c", "gc.auto=0", "--git-dir", d] + list(a), input=inp, env=ENV, capture_output=True, timeout=60)
    if okay is not None and p.returncode not in okay:
        raise Broken("git %s: %s" % (a, p.stderr[-500:]))
    return p if okay is None else p.stdout


NAMES = b"commit tree blob tag".split()
PREFIX = []


def alike(r):
    """two contents whose blobs begin with the same four digits"""
    seen = {}
    salt = r.randrange(1 << 30)
    for k in range(1 << 20):
        d = b"%d %d" % (salt, k)
        i = pl.oid(b"blob", d)[:2]
        if i in seen:
            return seen[i], d
        seen[i] = d


def objects(r):
    size = r.choice([30, 200, 3000, 9000, 70000, 140000, 140000])
    words = [bytes(r.choice(b"abcdefghijklmnop") for _ in range(r.randrange(2, 9))) for _ in range(50)]
    text = b" ".join(r.choice(words) for _ in range(size // 5))
    if r.random() < .3:
        text = r.randbytes(size)
    a = bytearray(text)
    for _ in range(r.randrange(1, 5)):
        k = r.randrange(len(a) + 1)
        a[k:k + r.choice([0, 0, 1, 10, size // 3])] = r.choice([b"", b"x", b"insert" * r.choice([1, 40]), r.randbytes(100)])
    k = r.randrange(len(text))
    b = text[k:] + text[:k] if r.random() < .5 else bytes(a) + text
    x, y = alike(r)
    out = [(b"blob", text), (b"blob", bytes(a)), (b"blob", b), (b"blob", x), (b"blob", y)]
    ids = [pl.oid(*o) for o in out]
    tree = b"".join(b"100644 f%02d\0" % k + ids[r.randrange(5)] for k in range(r.choice([1, 5, 60])))
    out.append((b"tree", tree))
    out.append((b"commit", b"tree %s\nauthor a <a@b> 1 +0000\ncommitter a <a@b> 1 +0000\n\n%s" % (pl.oid(b"tree", tree).hex().encode(), text[:r.choice([0, 3, 4000])].replace(b"\0", b"0"))))
    out.append(r.choice([(b"blob", b""), (b"blob", b"\n"), (b"tag", b"object %s\ntype commit\ntag t\ntagger a <a@b> 1 +0000\n\nm" % pl.oid(*out[6]).hex().encode())]))
    seen, res = set(), []
    for o in out:
        while pl.oid(*o) in seen:
            o = (b"blob", o[1] + b"%d" % len(res))
        seen.add(pl.oid(*o))
        res.append(o)
    return res


BASE = {"op": "", "who": "git", "db": 1, "d": 1, "o": 0, "os": [], "m": [], "out": "ok", "got": 0, "all": [], "what": "", "left": 0}


def rec(op, **kw):
    return dict(BASE, op=op, **kw)


def run(job):
    top = place("s%d" % job["n"])
    ev = []
    try:
        history(job, top, ev)
    except Broken as e:
        CUR["why"] = str(e)[:500]
        ev.append(rec("maint", out="broken"))
    emit(CUR, ev)
    shutil.rmtree(top, ignore_errors=True)


CUR = {}


def history(job, top, ev):
    r = rng("shared", job["n"])
    os.mkdir(top)
    dirs = [os.path.join(top, "main"), os.path.join(top, "alt")]
    for d in dirs:
        for s in ("objects/pack", "objects/info", "refs/heads"):
            os.makedirs(os.path.join(d, s))
        with open(os.path.join(d, "HEAD"), "w") as f:
            f.write("ref: refs/heads/main\n")
        with open(os.path.join(d, "config"), "w") as f:
            f.write("[core]\n\trepositoryformatversion = 0\n\tbare = true\n")
    odirs = [os.path.join(d, "objects") for d in dirs]
    with open(os.path.join(odirs[0], "info", "alternates"), "wb") as f:
        f.write(os.fsencode(odirs[1]) + b"\n")
    objs = objects(r)
    ids = [pl.oid(*o) for o in objs]
    index = {i: k + 1 for k, i in enumerate(ids)}
    dbd = [1, 2, 1]
    cfg = {"n": len(objs), "dbs": dbd, "h": str(job["h"])[:1500]}
    CUR.clear()
    CUR.update(cfg)
    current(CUR, ev)
    dbs = [GitDB(odirs[d - 1]) for d in dbd]

    def which(typ, size, data):
        k = index.get(pl.oid(typ, data), 0)
        return k if k and size == len(data) and objs[k - 1] == (typ, data) else 0

    def ask(h, o, how):
        db, d, i = dbs[h - 1], dbd[h - 1], ids[o - 1]
        kw = dict(who="gitdb", db=h, d=d, o=o)
        if how == "has":
            out, v = call(db.has_object, i)
            ev.append(rec("ask", out=out if out != "ok" or v else "BadObject", got=o if v is True else 0, **kw))
        elif how == "info":
            out, v = call(db.info, i)
            ok = out == "ok" and (v.type, v.size) == (objs[o - 1][0], len(objs[o - 1][1])) and v.binsha == i
            ev.append(rec("ask", out=out, got=o if ok else 0, **kw))
        else:
            def fetch():
                s = db.stream(i)
                n = r.choice([-1, -1, 100, 8192, 60000])
                if n < 0:
                    return s.type, s.size, s.read(), s.binsha
                q = []
                while True:
                    b = s.read(n)
                    q.append(b)
                    if len(b) < n:
                        return s.type, s.size, b"".join(q), s.binsha
            out, v = call(fetch)
            ev.append(rec("ask", out=out, got=which(*v[:3]) if out == "ok" and v[3] == i else 0, **kw))
            return v

    def refresh(h):
        out, v = call(dbs[h - 1].update_cache, force=True)
        ev.append(rec("refresh", db=h, d=dbd[h - 1], out=out))

    def listing(h):
        out, v = call(lambda: sorted({index.get(bytes(i), 0) for i in dbs[h - 1].sha_iter()}))
        ev.append(rec("list", who="gitdb", db=h, d=dbd[h - 1], all=v if out == "ok" else [], out=out))

    def abbreviated(h, o):
        k = r.choice([4, 4, 4, 5, 7, 8, 12, 39, 40])
        p = ids[o - 1].hex()[:k]
        if r.random() < .1:
            p = p[:-1] + r.choice("0123456789abcdef")
        m = [index[i] for i in ids if i.hex().startswith(p)]
        if h:
            out, v = call(dbs[h - 1].partial_to_complete_sha_hex, r.choice([p, p.upper(), p.encode()]))
            ev.append(rec("part", who="gitdb", db=h, d=dbd[h - 1], m=m, out=out, got=index.get(v, 0) if out == "ok" else 0))
        else:
            d = r.choice([1, 2])
            c = git(dirs[d - 1], "rev-parse", "--disambiguate=" + p).split()
            ev.append(rec("part", d=d, m=m, out="ok" if len(c) == 1 else "Ambiguous" if c else "BadObject", got=index.get(bytes.fromhex(c[0].decode()), 0) if len(c) == 1 else 0))

    def gitask(d):
        q = b"".join(i.hex().encode() + b"\n" for i in ids)
        b = BytesIO(git(dirs[d - 1], "cat-file", "--batch", inp=q, okay=(0, 128)))
        for k in range(len(ids)):
            l = b.readline().split()
            if len(l) == 2 and l[1] == b"missing":
                ev.append(rec("ask", d=d, o=k + 1, out="BadObject"))
            elif len(l) == 3:
                data = b.read(int(l[2]))
                b.read(1)
                ev.append(rec("ask", d=d, o=k + 1, got=which(l[1], int(l[2]), data)))
            else:
                ev.append(rec("ask", d=d, o=k + 1, out="broken"))
                return
        l = git(dirs[d - 1], "cat-file", "--batch-all-objects", "--batch-check=%(objectname)", okay=None)
        ev.append(rec("list", d=d, out="ok" if l.returncode == 0 else "broken", all=sorted({index.get(bytes.fromhex(x.decode()), 0) for x in l.stdout.split()}) if l.returncode == 0 else []))

    def verify(who, idx):
        pk = idx[:-3] + "pack"
        if who == "git":
            p = git(dirs[0], "verify-pack", "-v", idx, okay=None)
            got = sorted({index.get(bytes.fromhex(l.split()[0].decode()), 0) for l in p.stdout.splitlines() if len(l.split()) > 3 and len(l.split()[0]) == 40})
            ev.append(rec("verify", out="ok" if p.returncode == 0 else "broken", all=got))
            # the name is the right one, the index that git itself would write
            q = git(dirs[0], "index-pack", "-o", os.path.join(top, "x.idx"), "--index-version=2", pk, okay=None)
            with open(idx, "rb") as f:
                mine = f.read()
            theirs = b""
            if q.returncode == 0:
                with open(os.path.join(top, "x.idx"), "rb") as f:
                    theirs = f.read()
            for x in ("x.idx", "x.rev"):
                if os.path.exists(os.path.join(top, x)):
                    os.remove(os.path.join(top, x))
            ev.append(rec("verify", out="ok" if mine == theirs else "other-index", all=got))
            return
        def look():
            e = PackEntity(pk)
            v1 = e.index().version() == 1
            got = set()
            for i in e.index().sha_iter() if hasattr(e.index(), "sha_iter") else (e.index().sha(k) for k in range(e.index().size())):
                assert e.is_valid_stream(i, use_crc=False)
                if not v1:
                    assert e.is_valid_stream(i, use_crc=True)
                got.add(index.get(bytes(i), 0))
            assert e.index().indexfile_checksum() and e.index().packfile_checksum() == e.pack().checksum()
            assert {bytes(x.binsha) for x in e.info_iter()} == {bytes(x.binsha) for x in e.stream_iter()} == {ids[k - 1] for k in got}
            return sorted(got)
        out, v = call(look)
        ev.append(rec("verify", who="gitdb", out=out, all=v if out == "ok" else []))

    def gitwrite(d, o):
        typ, data = objs[o - 1]
        i = git(dirs[d - 1], "-c", "core.looseCompression=%d" % r.choice([-1, 0, 1, 9]), "hash-object", "-t", typ.decode(), "-w", "--stdin", inp=data).strip()
        ev.append(rec("write", d=d, o=o, got=index.get(bytes.fromhex(i.decode()), 0)))

    def gitpack(d, os_):
        q = b"".join(ids[k - 1].hex().encode() + (b" f%d" % r.randrange(3) if r.random() < .5 else b"") + b"\n" for k in r.sample(os_, len(os_)))
        iv = r.choice(["--index-version=1", "--index-version=2", "--index-version=2", "--index-version=2,0x%x" % r.choice([32, 100, 1000])])
        opt = ["--window=%d" % r.choice([0, 10, 10, 10]), "--depth=%d" % r.choice([1, 5, 50]), "--compression=%d" % r.choice([-1, 0, 9]), "--threads=1"]
        if r.random() < .5:
            opt.append("--no-reuse-delta")
        if r.random() < .3:
            # as fetched: bases by their ids
            data = git(dirs[d - 1], "pack-objects", "-q", "--stdout", *opt, inp=q)
            name = git(dirs[d - 1], "index-pack", "--stdin", iv, inp=data).split()[-1].decode()
        else:
            if r.random() < .7:
                opt.append("--delta-base-offset")
            name = git(dirs[d - 1], "-c", "pack.writeReverseIndex=%s" % r.choice(["true", "false"]), "pack-objects", "-q", iv, *opt, os.path.join(odirs[d - 1], "pack", "pack"), inp=q).split()[-1].decode()
        ev.append(rec("pack", d=d, os=os_))
        idx = os.path.join(odirs[d - 1], "pack", "pack-%s.idx" % name)
        if r.random() < .1:
            open(idx[:-3] + "keep", "w").close()
        verify("gitdb", idx)

    for s in job["h"]:
        w, d, o, q = s["w"], s["d"], s["o"], sorted(s["os"])
        if HANGS > 3 or len(ev) > 4000:
            break
        if w == "write":
            gitwrite(d, o)
        elif w == "fill":
            for o in q:
                gitwrite(d, o)
        elif w == "dbwrite":
            typ, data = objs[o - 1]
            i = IStream(typ if r.random() < .5 else typ.decode(), len(data), BytesIO(data) if r.random() < .7 else Trickle(r, data))
            out, v = call(dbs[d - 1].store, i)
            ev.append(rec("write", who="gitdb", db=d, d=dbd[d - 1], o=o, out=out, got=index.get(i.binsha, 0) if out == "ok" else 0))
        elif w == "pack":
            gitpack(d, q)
        elif w == "dbpack":
            pd = os.path.join(odirs[dbd[d - 1] - 1], "pack")
            ql = r.sample(q, len(q))
            before = set(os.listdir(pd))
            out, v = call(lambda: PackEntity.create([dbs[d - 1].stream(ids[k - 1]) for k in ql], pd, len(ql) if r.random() < .5 else None, r.choice([0, 1, 9])))
            ev.append(rec("pack", who="gitdb", db=d, d=dbd[d - 1], os=q, out=out))
            if out == "ok":
                verify("git", v.index().path())
                v = None
            else:
                ev[-1]["left"] = len(set(os.listdir(pd)) - before)
        elif w == "prunepacked":
            git(dirs[d - 1], "prune-packed", "-q")
            ev.append(rec("maint", d=d, what=w))
        elif w == "prune":
            git(dirs[d - 1], "prune", "--expire=now")
            ev.append(rec("maint", d=d, what=w))
        elif w == "repack":
            # (git leaves unreachable loose objects alone if there is no pack yet)
            pd = os.path.join(odirs[d - 1], "pack")
            if not [x for x in os.listdir(pd) if x.endswith(".pack") and not os.path.exists(os.path.join(pd, x[:-4] + "keep"))]:
                lo = [k + 1 for k, i in enumerate(ids) if os.path.exists(os.path.join(odirs[d - 1], i.hex()[:2], i.hex()[2:]))]
                if lo:
                    gitpack(d, lo)
            git(dirs[d - 1], "-c", "pack.threads=1", "-c", "repack.useDeltaBaseOffset=%s" % r.choice(["true", "false"]), "-c", "pack.indexVersion=%d" % r.choice([1, 2, 2]),
                "-c", "repack.writeBitmaps=false", "repack", "-a", "-d", "-k", "-q", *(["-f", "-F"] if r.random() < .4 else []), *(["-m"] if r.random() < .3 else []))
            ev.append(rec("maint", d=d, what=w))
            if os.path.exists(os.path.join(pd, "multi-pack-index")):
                ev[-1]["midx"] = 1
        elif w == "refresh":
            refresh(d)
        elif w == "ask":
            ask(d, o, r.choice(["has", "info", "stream", "stream"]))
        elif w == "list":
            listing(d)
        elif w == "part":
            abbreviated(d if r.random() < .8 else 0, o)
        elif w == "gitask":
            gitask(d)
    for d in (1, 2):
        gitask(d)
    if r.random() < .3:
        dbs.append(GitDB(odirs[0]))
        dbs[0] = dbs.pop()
    for h in (1, 2, 3):
        refresh(h)
        listing(h)
        for k in range(len(objs)):
            ask(h, k + 1, ["has", "info", "stream"][(k + h + job["n"]) % 3])
        abbreviated(h, r.choice([4, 5, r.randrange(1, 9)]))


for n, job in jobs():
    run(job)
