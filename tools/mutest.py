"""Which mutants of mutate.py pass the stable tests?  usage: mutest.py all.jsonl OUT.jsonl [-j N]   (resumes)"""
import json, os, subprocess, sys, shutil, queue
from concurrent.futures import ThreadPoolExecutor

src, out = sys.argv[1:3]
J = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
done = set(json.loads(l)["id"] for l in open(out)) if os.path.exists(out) else set()
todo = [m for m in map(json.loads, open(src)) if m["id"] not in done]
slots = queue.Queue()
W = "/tmp/mut/w"
for k in range(J):
    d = "%s%d" % (W, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/tmp")
    subprocess.run("cp -a /repo %s/repo; cp -a /opt/vp/testrepo.git %s/fix.git; cp -a %s/fix.git %s/testrepo.git; chown -R nobody %s" % (d, d, d, d, d), shell=True, check=True)
    slots.put(d)


def run(d, tests, lim):
    nodes = []
    for t in tests:
        a = t.split(".")
        nodes.append("/".join(a[:-1]).replace("::", "") if False else t)
    cmd = "ulimit -n 48; cd %s/repo; TMPDIR=%s/tmp GITDB_TEST_GIT_REPO_BASE=%s/testrepo.git PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec timeout -k 1 %d setpriv --reuid 65534 --clear-groups /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --timeout=%d %s" % (d, d, d, lim, lim, tests)
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True)


def go(m):
    d = slots.get()
    p = d + "/repo/" + m["file"]
    s = open("/repo/" + m["file"], "rb").read()
    try:
        open(p, "wb").write(s[:m["start"]] + m["new"].encode() + s[m["end"]:])
        r = run(d, "--deselect gitdb/test/performance/test_stream.py", 40)
        ok = r.returncode == 0
        if ok and m["file"] in ("gitdb/stream.py", "gitdb/db/loose.py", "gitdb/util.py", "gitdb/fun.py", "gitdb/base.py"):
            ok = run(d, "gitdb/test/performance/test_stream.py", 90).returncode == 0
        m["survives"] = ok
        with open(out, "a") as f:
            f.write(json.dumps(m) + "\n")
    finally:
        open(p, "wb").write(s)
        shutil.rmtree(d + "/tmp", ignore_errors=True)
        os.makedirs(d + "/tmp")
        shutil.rmtree(d + "/testrepo.git", ignore_errors=True)
        subprocess.run("cp -a %s/fix.git %s/testrepo.git; chown nobody %s/tmp" % (d, d, d), shell=True)
        slots.put(d)


with ThreadPoolExecutor(J) as ex:
    list(ex.map(go, todo))
