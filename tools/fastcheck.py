"""For campaigns over many variants of /repo only: run checks without the model checking (it does not depend on /repo) and with
cached generation; stop at the first rejected trace.   usage: VERIF_REPO=copy fastcheck.py C01 C03 ...  -> exit 1 at the first violation"""
import hashlib
import importlib
import json
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import core
CACHE = os.environ.get("VERIF_CACHE", "/tmp/mut/cache")
os.makedirs(CACHE, exist_ok=True)
gen0 = core.Ctx.generate


class Found(Exception):
    pass


def generate(self, module, cfg=None, num=None, depth=None, env=None, what="", timeout=300, salt=0, workers=1, **kw):
    k = hashlib.sha1(repr((self.prop, self.tier, self.seed, module, cfg, num, depth, env, salt)).encode()).hexdigest()
    p = os.path.join(CACHE, k)
    if os.path.exists(p):
        return json.load(open(p))
    r = gen0(self, module, cfg, num=num, depth=depth, env=env, what=what, timeout=timeout, salt=salt, workers=workers, **kw)
    with open(p + ".%d" % os.getpid(), "w") as f:
        json.dump(r, f)
    os.replace(p + ".%d" % os.getpid(), p)
    return r


class NoResult:
    distinct = generated = depth = rc = 0
    violated = prints = ()
    out = ""


drive0 = core.Ctx.drive
SAMPLE = float(os.environ.get("VERIF_SAMPLE", "1"))


def drive(self, driver, jobs, **k):
    jobs = list(jobs)
    if SAMPLE < 1 and len(jobs) > 8:
        import random
        jobs = random.Random(len(jobs)).sample(jobs, max(8, int(len(jobs) * SAMPLE)))
    k.setdefault("timeout", 240)
    return drive0(self, driver, jobs, **k)


core.Ctx.drive = drive
val0 = core.Ctx.validate


def validate(self, module, traces, *a, **k):
    r = val0(self, module, traces, *a, **k)
    if self.violations:
        raise Found(self.violations[0][0])
    return r


core.Ctx.generate = generate
core.Ctx.model_check = lambda self, *a, **k: NoResult()
core.Ctx.validate = validate
core.NCPU = int(os.environ.get("VERIF_NCPU", "4"))
rc = 0
for prop in sys.argv[1:]:
    ctx = core.Ctx(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    ctx.replaydir = os.path.join(ctx.work, "replay")
    try:
        importlib.import_module("checks." + prop.lower()).run(ctx)
        if ctx.violations:
            raise Found(ctx.violations[0][0])
    except Found as e:
        print("FOUND", prop, e)
        rc = 1
    except core.Machinery as e:
        print("MACHINERY", prop, str(e)[-300:])
        rc = 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    if rc:
        break
sys.exit(rc)
