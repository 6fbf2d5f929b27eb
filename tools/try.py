"""Run the check of every planted bug's property against a copy of /repo with that bug.
usage: try.py [-j N] [-p PROP (run this check instead)] [-t tier] [-s seed] [id or prefix ...]"""
import argparse
import json
import os
import re
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("-p")
ap.add_argument("-s", default="1")
ap.add_argument("-t", default="quick")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()


def go(i):
    top = "/tmp/try-%s-%d" % (i, os.getpid())
    shutil.rmtree(top, ignore_errors=True)
    os.mkdir(top)
    try:
        subprocess.run(["cp", "-a", "/repo", top + "/repo"], check=True)
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "work", "--exclude", "seeded", ROOT + "/", top + "/verif"], check=False) if shutil.which("rsync") else \
            subprocess.run("mkdir %s/verif && cd %s && tar c --exclude .git --exclude ./work --exclude ./seeded . | tar x -C %s/verif" % (top, ROOT, top), shell=True, check=True)
        d = ROOT + "/seeded/" + i
        if i != "none":
            subprocess.run(["git", "-C", top + "/repo", "apply", d + "/patch.diff"], check=True)
        pid = a.p or json.load(open(d + "/meta.json"))["property"]
        t = time.time()
        env = dict(os.environ, VERIF_REPO=top + "/repo", VERIF_SEED=a.s, VERIF_TIER=a.t)
        p = subprocess.run(["python3", top + "/verif/check.py", pid], env=env, capture_output=True, text=True, cwd=top + "/verif")
        v = re.findall(r"^VIOLATION.*", p.stdout, re.M)
        more = ""
        for x in v[:1]:
            f = re.search(r"replay=(\S+)", x)
            if f:
                q = f.group(1) if f.group(1).startswith("/") else top + "/verif/" + f.group(1)
                try:
                    more = open(q).read()[:300].replace("\n", " ")
                except OSError:
                    pass
        print("%-28s %s %-6s %4.0fs rc=%d n=%d %s" % (i, pid, "caught" if p.returncode == 1 and v else "MISSED" if p.returncode == 0 else "ERROR", time.time() - t, p.returncode, len(v), more if p.returncode == 1 else (p.stdout + p.stderr)[-600:] if p.returncode else ""), flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


ids = [i for i in sorted(os.listdir(ROOT + "/seeded")) if not a.ids or any(i.startswith(x) for x in a.ids)] + (["none"] if "none" in a.ids else [])
with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(go, ids))
