"""Machinery shared by all checks: run TLC, run the harness, give a verdict."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
REPO = os.environ.get("DORADO_REPO", "/repo")
PY = "/opt/venv/bin/python"
JAR = ("/opt/veriftools/tla/tla2tools.jar:"
       "/opt/veriftools/tla/CommunityModules-deps.jar")


class ToolError(Exception):
    pass


class CodeCrash(Exception):
    """The code under test hangs or kills its process (twice)."""


class SpecDomain(Exception):
    """TLC could not evaluate the specification on a recorded value."""


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.dir = tempfile.mkdtemp(prefix="dorado-verif-")
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.fails = []          # dicts with clause, where, info, scenario
        self.notes = []
        self.t0 = time.time()
        self._n = 0

    # -- TLC -----------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, args=(), timeout=800,
            count=True):
        self._n += 1
        meta = os.path.join(self.dir, "meta%d-%d" % (self._n, random.randrange(10**9)))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx3g", "-Xss16m",
               "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=%d" % (4 if workers > 1 or not self.quick else 4),
               "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"]
        cmd += list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out = p.stdout
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m and count:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        return p.returncode, out

    def model(self, module, cfg=None, level=None, workers=4, env=None, timeout=800,
              label=None):
        """Exhaustive check of a design model; a violated invariant here is a
        defect of the specification itself."""
        e = dict(env or {})
        if level is not None:
            e["MCLEVEL"] = str(level)
        rc, out = self.tlc(module, cfg, e, workers, timeout=timeout)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("model %s failed:\n%s" % (module, out[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        self.cov.setdefault("models", []).append(
            {"module": label or module, "level": level,
             "generated": int(m.group(1)), "distinct": int(m.group(2))})

    def generate(self, module, env=None, args=(), workers=1):
        """Let TLC enumerate scenarios; returns the exported JSON."""
        path = os.path.join(self.dir, "gen%d.json" % self._n)
        e = dict(env or {}, OUT=path)
        rc, out = self.tlc(module, None, e, workers, args)
        if not os.path.exists(path):
            raise ToolError("generator %s failed:\n%s" % (module, out[-3000:]))
        return json.load(open(path))

    # -- the real code -------------------------------------------------------
    def drive(self, family, scenarios, timeout=700):
        """Run scenarios on the code in /repo, return the recording (dict)."""
        self._n += 1
        n = self._n
        src = os.path.join(self.dir, "sc%d.json" % n)
        dst = os.path.join(self.dir, "rec%d.json" % n)
        work = os.path.join(self.dir, "cwd%d" % n)
        os.makedirs(work, exist_ok=True)
        json.dump(scenarios, open(src, "w"))
        e = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1",
                 MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                 MPLCONFIGDIR=os.path.join(self.dir, "mpl"), TQDM_DISABLE="1")
        for attempt in (1, 2):
            try:
                p = subprocess.run([PY, os.path.join(HARN, "drive.py"), family, src, dst],
                                   cwd=work, env=e, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CodeCrash("driver %s did not end within %d s" % (family, timeout))
            if p.returncode == 0 and os.path.exists(dst):
                return json.load(open(dst))
        raise CodeCrash("driver %s: exit status %d\n%s" % (family, p.returncode, p.stdout[-2000:]))

    def judge(self, module, record, env=None, timeout=800):
        """Validate a recording with a TLA+ trace specification."""
        self._n += 1
        n = self._n
        tr = os.path.join(self.dir, "tr%d-%d.json" % (n, random.randrange(10**9)))
        out = tr + ".out"
        json.dump(record, open(tr, "w"))
        e = dict(env or {}, TRACE=tr, OUT=out)
        rc, txt = self.tlc(module, None, e, 1, timeout=timeout)
        if not os.path.exists(out) or rc != 0:
            if re.search("[Oo]verflow|Attempted to|is not in the domain|no value", txt):
                raise SpecDomain(txt)
            raise ToolError("trace check %s failed:\n%s" % (module, txt[-4000:]))
        return json.load(open(out))

    def parallel(self, jobs, width=6):
        with ThreadPoolExecutor(width) as ex:
            return list(ex.map(lambda j: j(), jobs))

    # -- verdict -------------------------------------------------------------
    def add_fail(self, clause, info, scenario=None, where=""):
        self.fails.append({"clause": clause, "info": info, "where": where,
                           "scenario": scenario})

    def known(self):
        path = os.path.join(ROOT, "known-findings.json")
        if not os.path.exists(path):
            return []
        return [k for k in json.load(open(path)).get("known", [])
                if k["property"] == self.prop]

    def finish(self, assumptions=()):
        known_hit, fresh = {}, []
        for f in self.fails:
            for k in self.known():
                if k["clause"] == f["clause"]:
                    known_hit.setdefault(k["clause"], k)
                    break
            else:
                fresh.append(f)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:3]}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov,
              "assumptions": list(assumptions) + self.notes,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(fresh)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        # a listed finding that is no longer there is worth saying, not failing
        if fresh:
            os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
            path = os.path.join(ROOT, "replay", self.prop + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier,
                           "seed": self.seed, "failures": fresh[:20]}, f, indent=1)
            for f in fresh[:5]:
                print("  %s %s: %s" % (f["where"], f["clause"], str(f["info"])[:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" %
              (self.prop, self.tier, self.states, self.traces, ev["wall_s"]))
        return 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
