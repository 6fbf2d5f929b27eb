"""Run the checks a mutant concerns on each mutant which passed the tests. usage: mucheck.py surv.jsonl OUT.jsonl [-j N] [-s SAMPLE] [-f ids-file]
Resumes; follows a growing file until it has no more lines."""
import json, os, re, subprocess, sys, shutil, queue
from concurrent.futures import ThreadPoolExecutor

src, out = sys.argv[1:3]
arg = lambda f, d: sys.argv[sys.argv.index(f) + 1] if f in sys.argv else d
J, S = int(arg("-j", "2")), arg("-s", "0.3")
only = set(open(arg("-f", "")).read().split()) if "-f" in sys.argv else None
MAP = [
    (r"fun.py:(loose_object_header|pack_object_header|create_pack_object_header|msb_size)", "C23 C10 C05"), (r"util.py:(to_|bin_|hex_)|encoding", "C23 C01"), (r"stream.py:(Sha1W|Flex|Zipped|FDC|FDS|NullS)", "C22 C01 C02 C18"), (r"base.py:IStream", "C01 C17 C18 C02"), (r"^gitdb/base.py", "C10 C01 C17"),
    (r"fun.py:(stream_copy|write_object|loose_object|is_loose|create_loose)", "C01 C17 C02 C18 C03"),
    (r"fun.py:(create_pack_entry|create_pack_object|msb_size_header|pack_object_header)", "C07 C10"), (r"fun.py:is_equal", "C09 C08"),
    (r"fun.py:(apply_delta|msb_size|decode)", "C05 C04 C06"), (r"fun.py", "C06 C04 C05"),
    (r"pack.py:PackIndexFile.*(partial)", "C09"), (r"/pack.py:(PackIndexFile)", "C08 C09 C11"), (r"gitdb/pack.py:(IndexWriter)", "C07 C12"),
    (r"gitdb/pack.py:PackFile", "C10 C11 C21 C20"), (r"gitdb/pack.py:PackEntity.(create|write)", "C12 C07"), (r"gitdb/pack.py:PackEntity.*(valid)", "C11"),
    (r"gitdb/pack.py", "C10 C11 C07 C12 C21"),
    (r"stream.py:Decompress", "C03 C10 C01 C20"), (r"stream.py:DeltaApply", "C05 C04 C03 C10"), (r"stream.py", "C01 C02 C07 C18 C20 C17"),
    (r"util.py:(LockedFD|_retry)", "C16"), (r"util.py:(file_contents|allocate|.*close)", "C20 C01 C03"), (r"util.py", "C01 C16 C13 C10"),
    (r"db/base.py:Compound", "C14 C15 C09 C19"), (r"db/base.py", "C01 C17 C18 C14"), (r"db/git.py", "C14 C15 C09"),
    (r"db/loose.py:.*(partial)", "C09"), (r"db/loose.py", "C01 C02 C18 C20"), (r"db/mem.py", "C17 C18"), (r"db/pack.py:.*partial", "C09"), (r"db/pack.py", "C13 C19 C14 C20"),
    (r"db/ref.py", "C15 C14"), (r".*", "C01 C14"),
]
slots = queue.Queue()
for k in range(J):
    d = "/tmp/mut/c%s%d" % (arg("-n", ""), k)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run("mkdir -p %s/repo && cd /repo && git archive HEAD | tar x -C %s/repo" % (d, d), shell=True, check=True)
    slots.put(d)


def go(m):
    d = slots.get()
    p = d + "/repo/" + m["file"]
    s = open("/repo/" + m["file"], "rb").read()
    try:
        open(p, "wb").write(s[:m["start"]] + m["new"].encode() + s[m["end"]:])
        props = next(v for k, v in MAP if re.search(k, m["file"] + ":" + m["func"])).split()
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SAMPLE=S, VERIF_NCPU=arg("-c", "3"))
        r = subprocess.run(["timeout", "-k", "5", "1500", "python3", "/verif/tools/fastcheck.py"] + props, env=env, capture_output=True, text=True, cwd="/tmp/mut")
        m["rc"] = r.returncode
        m["said"] = (r.stdout.splitlines() or r.stderr.splitlines() or [""])[-1][:300] if r.returncode else ""
        m["props"] = props
        with open(out, "a") as f:
            f.write(json.dumps(m) + "\n")
    finally:
        open(p, "wb").write(s)
        slots.put(d)


while True:
    done = set(json.loads(l)["id"] for l in open(out)) if os.path.exists(out) else set()
    todo = [m for m in (json.loads(l) for l in open(src) if l.endswith("\n")) if m.get("survives", True) and m["id"] not in done and (only is None or m["id"] in only)]
    if not todo:
        break
    with ThreadPoolExecutor(J) as ex:
        list(ex.map(go, todo[:J * 4]))
