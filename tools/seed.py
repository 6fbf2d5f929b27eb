"""Make /verif/seeded/<id> from a description file (python, a list BUGS of dicts) after confirming it in a scratch copy.
usage: seed.py descriptions.py [id ...]"""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def make(b):
    i = b["id"]
    top = "/tmp/seed-" + i
    shutil.rmtree(top, ignore_errors=True)
    os.mkdir(top)
    repo = top + "/repo"
    sh("cp -a /repo %s" % repo)
    d = top + "/" + i
    os.mkdir(d)
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\n# exit 0: the property holds\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1\n'
                'scratch=$(mktemp -d)\ntrap \'rm -rf "$scratch"\' EXIT\n%s/opt/venv/bin/python "$here/demo.py" "$scratch"\n' % b.get("pre", ""))
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/demo.py", "w") as f:
        f.write(b["demo"].lstrip("\n"))
    if "packlib" in b["demo"]:
        shutil.copy(ROOT + "/drivers/packlib.py", d + "/packlib.py")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)

    def demo():
        return sh("bash %s/demo.sh" % d, cwd=repo, timeout=300)
    r0 = demo()
    if r0.returncode != 0:
        return "demo fails on the unchanged tree: " + (r0.stdout + r0.stderr)[-800:]
    for path, pairs in b["edits"].items():
        p = repo + "/" + path
        s = open(p).read()
        for x in pairs:
            a, c = x[0], x[1]
            n = x[2] if len(x) > 2 else None
            if n is None:
                assert s.count(a) == 1, (i, s.count(a), a)
                s = s.replace(a, c)
            else:       # the n-th occurrence
                q = s.split(a)
                s = a.join(q[:n]) + c + a.join(q[n:])
        open(p, "w").write(s)
    diff = sh("git diff", cwd=repo).stdout
    open(d + "/patch.diff", "w").write(diff)
    r1 = demo()
    if r1.returncode == 0:
        return "demo passes with the change"
    t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + repo)
    open(top + "/test.sh", "w").write(t)
    sh("bash %s/test.sh %s/out.json" % (top, top))
    got = json.load(open(top + "/out.json"))["passed"]
    bad = [x for x in BASE if x not in got]
    if bad:
        return "tests fail: %s" % bad
    for path in b["edits"]:
        base = sh("git show $(git rev-list --max-parents=0 HEAD):" + path, cwd=repo).stdout.splitlines()
        cur = [l[1:] for l in sh("git diff " + path, cwd=repo).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not any(l in base for l in cur):
            print("  NOTE", i, "changes no original line of", path)
    out = ROOT + "/seeded/" + i
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    return "ok   demo says: " + ((r1.stdout + r1.stderr).strip().splitlines() or [""])[-1][:150]


bugs = runpy.run_path(sys.argv[1])["BUGS"]
from concurrent.futures import ThreadPoolExecutor  # noqa: E402


def go(b):
    try:
        r = make(b)
    except Exception as e:
        r = "error %r" % e
    shutil.rmtree("/tmp/seed-" + b["id"], ignore_errors=True)
    print(b["id"], r, flush=True)


todo = [b for b in bugs if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
with ThreadPoolExecutor(4) as ex:
    list(ex.map(go, todo))
