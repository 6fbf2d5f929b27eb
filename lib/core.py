"""Shared machinery of the checks: running TLC, running drivers against /repo, validating the traces they
record, reporting verdicts, writing evidence."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
OPTIMIZED = {1, 4, 6, 7}        # shards which run with python -O (mixed parities: jobs are dealt out in turn)
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class Machinery(Exception):
    """The check itself failed: never reported as a violation."""


class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = ((int(x.replace(",", "")) for x in m[-1]) if m else (0, 0))
        if not m:
            m = re.search(r"Progress: ([\d,]+) states checked", out) or re.search(
                r"number of states generated: ([\d,]+)", out)
            if m:
                self.generated = self.distinct = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        # invariant names that were violated, by the model checker itself
        self.violated = re.findall(r"Invariant (\S+) is violated", out)
        self.violated += re.findall(r"Action property (\S+) is violated", out)
        self.violated += ["Temporal" for _ in re.findall(r"Temporal properties were violated", out)]
        self.violated += ["Deadlock" for _ in re.findall(r"Deadlock reached", out)]
        self.prints = [json.loads(l) for l in out.splitlines() if l.startswith('"') and l.endswith('"')]


def cfg(consts=None, invariants=(), properties=(), spec="Spec", constraint=None, view=None, extra=""):
    """TLC configuration text"""
    def val(v):
        if v is True or v is False:
            return "TRUE" if v else "FALSE"
        if isinstance(v, (set, frozenset)):
            return "{" + ", ".join(sorted(map(val, v))) + "}"
        if isinstance(v, str) and not v.startswith("@"):
            return '"%s"' % v
        return str(v).lstrip("@")
    out = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    for k, v in (consts or {}).items():
        if isinstance(v, str) and v.startswith("<-"):
            out.append("CONSTANT %s %s" % (k, v))
        else:
            out.append("CONSTANT %s = %s" % (k, val(v)))
    out += ["INVARIANT " + i for i in invariants] + ["PROPERTY " + p for p in properties]
    if constraint:
        out.append("CONSTRAINT " + constraint)
    if view:
        out.append("VIEW " + view)
    return "\n".join(out) + "\n" + extra + "\n"


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower())
        self.replaydir = os.path.join(VERIF, "work", "replay", prop)
        self.states = self.transitions = self.validated = 0
        self.parts = []
        self.samples = []
        self.assumptions = []
        self.violations = []        # (clause, replay path, text)
        self.known_hits = []
        self.known = load_known(prop)
        self.t_parts = {}

    # ---------------------------------------------------------------- TLC

    def tlc(self, module, cfg=None, env=None, workers=None, args=(), timeout=600, mem="4g", expect_ok=None):
        """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.work)
        cfg = cfg or module
        if "\n" in cfg:                     # inline configuration
            cfgfile = os.path.join(meta, "inline.cfg")
            with open(cfgfile, "w") as f:
                f.write(cfg)
            cfg = "inline"
        else:
            cfgfile = os.path.join(SPEC, cfg + ".cfg")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-XX:TieredStopAtLevel=%d" % (4 if timeout > 100 else 1),
               "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta, "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
               "-workers", str(workers or NCPU), "-config", cfgfile, *args,
               os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired as ex:
            raise Machinery("TLC timed out on %s/%s" % (module, cfg)) from ex
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r = TLCResult(p.returncode, p.stdout)
        if p.returncode not in (0, 10, 11, 12, 13):
            raise Machinery("TLC failed on %s/%s (exit %d):\n%s" % (module, cfg, p.returncode, p.stdout[-4000:]))
        return r

    def model_check(self, module, cfg=None, what="", env=None, expect_violation=None, name="", **kw):
        """Exhaustive check of a design model. A failing *design* check does not depend on /repo: it means
        the specification itself is broken, hence machinery. With expect_violation, TLC must find exactly
        that violation (negative control: the invariant is not vacuous)."""
        t = time.time()
        r = self.tlc(module, cfg, env, **kw)
        if expect_violation:
            if expect_violation not in r.violated:
                raise Machinery("%s/%s: expected TLC to report %s, got %s\n%s" % (
                    module, cfg, expect_violation, r.violated, r.out[-3000:]))
        elif r.rc != 0:
            raise Machinery("%s/%s: model check failed: %s\n%s" % (module, cfg, r.violated, r.out[-6000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"part": "model", "module": module, "cfg": name or "default", "what": what,
                           "distinct_states": r.distinct, "states_generated": r.generated, "depth": r.depth,
                           "negative_control": expect_violation or "", "wall_s": round(time.time() - t, 1)})
        return r

    def generate(self, module, cfg=None, num=None, depth=None, env=None, what="", timeout=300, salt=0, workers=1, **kw):
        """Behaviours / cases printed by TLC as JSON strings (PrintT(ToJson(..))); with num: -simulate."""
        t = time.time()
        args = []
        if num:
            args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed * 1000 + salt)]
        r = self.tlc(module, cfg, env, workers=workers, args=args, timeout=timeout, **kw)
        if r.rc != 0:
            raise Machinery("%s/%s: generation failed\n%s" % (module, cfg, r.out[-4000:]))
        out, seen = [], set()
        for p in r.prints:
            if isinstance(p, str) and p[:1] in "{[" and p not in seen:
                seen.add(p)
                out.append(json.loads(p))
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"part": "generation", "module": module, "what": what,
                           "cases": len(out), "states_generated": r.generated, "wall_s": round(time.time() - t, 1)})
        if not out:
            raise Machinery("%s generated nothing\n%s" % (module, r.out[-3000:]))
        return out

    # ---------------------------------------------------------------- drivers

    def drive(self, driver, jobs, shards=None, timeout=600, env=None, what="", as_limit_gb=6, preload=None):
        """Run drivers/<driver>.py on the jobs (list of JSON values), sharded over processes.
        Returns the traces the driver recorded (list of dicts)."""
        t = time.time()
        jobs = list(jobs)
        shards = max(1, min(shards or NCPU, len(jobs)))
        parts = [jobs[i::shards] for i in range(shards)]

        def one(k):
            jf = os.path.join(self.work, "%s.%d.%d.jobs" % (driver, k, time.monotonic_ns()))
            of = jf + ".out"
            with open(jf, "w") as f:
                json.dump({"jobs": parts[k], "seed": self.seed, "tier": self.tier, "repo": REPO,
                           "scratch": tempfile.mkdtemp(prefix="drv", dir=self.work), "verif": VERIF}, f)
            e = dict(os.environ)
            for k2 in ("LD_PRELOAD",):
                e.pop(k2, None)
            e.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8",
                      "VERIF_AS_GB": str(as_limit_gb)})
            # half of the processes run without assertions: a guarantee must not rest on them
            e["PYTHONOPTIMIZE"] = "1" if k % 8 in OPTIMIZED else ""
            if preload:
                e["LD_PRELOAD"] = preload
            e.update(env or {})
            try:
                p = subprocess.run([PY, os.path.join(VERIF, "drivers", driver + ".py"), jf, of], env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                                   errors="replace", cwd=self.work, stdin=subprocess.DEVNULL)
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired as ex:
                rc, err = "timeout", (ex.stderr or b"").decode("utf-8", "replace") if isinstance(
                    ex.stderr, (bytes, type(None))) else str(ex.stderr)
            traces = []
            if os.path.exists(of):
                with open(of) as f:
                    for line in f:
                        if line.endswith("\n"):
                            traces.append(json.loads(line))
            if rc != 0:
                cur = of + ".cur"
                died = None
                if rc == "timeout" or (isinstance(rc, int) and rc < 0):
                    # the process was lost inside a call of the library: that is an observation
                    if os.path.exists(cur):
                        with open(cur) as f:
                            died = json.load(f)
                if died is None:
                    raise Machinery("driver %s failed (%s):\n%s" % (driver, rc, err[-4000:]))
                died["ev"] = died.get("ev", []) + [{"op": "lost", "how": str(rc)}]
                traces.append(died)
            return traces

        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        out = [x for r in res for x in r]
        for n, tr in enumerate(out):
            tr["id"] = n + 1
        nev = sum(len(tr["ev"]) for tr in out)
        self.parts.append({"part": "driver", "driver": driver, "what": what, "jobs": len(jobs), "optimized_processes": sum(k % 8 in OPTIMIZED for k in range(shards)), "traces": len(out),
                           "events": nev, "wall_s": round(time.time() - t, 1)})
        return out

    def shim(self):
        """the LD_PRELOAD library which lets a controller decide about every file-system call"""
        so = os.path.join(self.work, "fsshim.so")
        if not os.path.exists(so):
            p = subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-w", "-o", so, os.path.join(VERIF, "shim", "fsshim.c"), "-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise Machinery("building the shim failed\n" + p.stdout)
        return so

    # ---------------------------------------------------------------- validation

    def validate(self, module, traces, contract=None, what="", timeout=600, sample=2, env=None, mem="6g"):
        """Step every trace through spec/<module>.tla; rejected ones become violations."""
        if not traces:
            raise Machinery("no traces for %s" % module)
        t = time.time()
        lost = [x for x in traces if x["ev"] and x["ev"][-1].get("op") == "lost"]
        good = [x for x in traces if not (x["ev"] and x["ev"][-1].get("op") == "lost")]
        byid = {x["id"]: x for x in traces}
        rej = {}
        for x in lost:
            rej[x["id"]] = ("process-lost", len(x["ev"]))
        if good:
            tf = os.path.join(self.work, "%s.%d.ndjson" % (module, time.monotonic_ns()))
            with open(tf, "w") as f:
                for x in good:
                    f.write(json.dumps(x) + "\n")
            c = contract or module.replace("Trace", "")
            tc = cfg({"TInit": "<- %sInit" % c, "TVerdict": "<- %sVerdict" % c, "TApply": "<- %sApply" % c,
                      "TEnd": "<- %sEnd" % c})
            r = self.tlc(module, tc, env={"TRACE_FILE": tf, **(env or {})}, timeout=timeout, mem=mem)
            if r.rc != 0:
                raise Machinery("trace validation %s failed to run (%d)\n%s" % (module, r.rc, r.out[-5000:]))
            acc = set()
            for p in r.prints:
                m = re.match(r"(ACCEPT|REJECT) (\d+) (\d+) ?(.*)$", p) if isinstance(p, str) else None
                if m:
                    if m.group(1) == "ACCEPT":
                        acc.add(int(m.group(2)))
                    else:
                        rej[int(m.group(2))] = (m.group(4), int(m.group(3)))
            acc -= set(rej)
            missing = {x["id"] for x in good} - acc - set(rej)
            if missing:
                raise Machinery("%s: no verdict for traces %s\n%s" % (module, sorted(missing)[:5], r.out[-3000:]))
            self.states += r.distinct
            self.transitions += r.generated
            os.unlink(tf)
        self.validated += len(traces)
        self.parts.append({"part": "trace validation", "module": module, "what": what, "traces": len(traces),
                           "events": sum(len(x["ev"]) for x in traces), "rejected": len(rej),
                           "wall_s": round(time.time() - t, 1)})
        for x in good[:sample]:
            if len(self.samples) < 8:
                self.samples.append({"module": module, "trace": shorten(x)})
        shown = 0
        for i in sorted(rej):
            clause, step = rej[i]
            tr = byid[i]
            kf = self.match_known(tr, clause)
            if kf is not None:
                self.known_hits.append(kf)
                continue
            shown += 1
            if shown <= 12:
                self.violation(clause, {"module": module, "clause": clause, "step": step, "trace": tr})
            else:
                self.violations.append((clause, self.violations[-1][1], ""))
        return rej

    def match_known(self, tr, clause):
        for k in self.known:
            if k["status"] == "known" and k["label"] == tr.get("label", "") and clause in k["clauses"]:
                return k
        return None

    def violation(self, clause, data):
        os.makedirs(self.replaydir, exist_ok=True)
        p = os.path.join(self.replaydir, "%s-%d.json" % (re.sub(r"[^A-Za-z0-9]+", "-", clause)[:40], len(self.violations)))
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append((clause, p, ""))
        if len(self.violations) > 6:
            return
        ev = data["trace"]["ev"]
        s = max(0, data["step"] - 1)
        print("  rejected: %s: trace %s label=%r cfg=%s" % (clause, data["trace"]["id"], data["trace"].get("label", ""),
              json.dumps(data["trace"].get("cfg", {}))[:300]))
        for e in ev[max(0, s - 3):s + 1]:
            print("     ", json.dumps(e)[:400])

    # ---------------------------------------------------------------- verdict

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "samples": self.samples or [{}],
               "parts": self.parts}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        for k in {k["id"]: k for k in self.known_hits}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            byc = {}
            for c, p, _ in self.violations:
                byc.setdefault(c, []).append(p)
            for c, ps in byc.items():
                print("clause %-40s %d trace(s)" % (c, len(ps)))
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
            return 1
        print("%s OK: %d states, %d transitions, %d traces validated, %.1fs" % (
            self.prop, self.states, self.transitions, self.validated, time.time() - self.t0))
        return 0


def shorten(x, n=12):
    x = dict(x)
    if len(x["ev"]) > n:
        x["ev"] = x["ev"][:n] + [{"op": "...", "more": len(x["ev"]) - n}]
    s = json.dumps(x)
    if len(s) > 4000:
        x = {"id": x["id"], "label": x.get("label", ""), "text": s[:3500]}
    return x


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith("{"):
                    k = json.loads(line)
                    if k["property"] == prop:
                        out.append(k)
    return out


def run_check(prop):
    import importlib
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(prop, tier, seed)
    rc = 2
    try:
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(ctx)
        rc = ctx.finish()
    except Machinery as e:
        print("CHECK ERROR (%s): %s" % (prop, e), file=sys.stderr)
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    return rc
