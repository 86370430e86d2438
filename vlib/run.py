"""What all checks share: running TLC, replaying scenarios into GEEC, verdicts, evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GEEC_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
CORES = os.cpu_count() or 8
FINDINGS = os.path.join(VERIF, "known-findings.txt")


class Broken(Exception):
    """the machinery itself failed: neither a pass nor a violation"""


def build():
    """compile the Java module override, if needed"""
    src = os.path.join(VERIF, "java", "Flt.java")
    cls = os.path.join(BUILD, "Flt.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["javac", "-cp", JARS, "-d", BUILD, src],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("javac: " + r.stderr)


# for people, not for the specification
HIDDEN = ("raw", "scenario", "err", "kind")
STATS = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found", re.M)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="geec-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.fails = []
        self.notes = {}
        self.demands = {}
        self.lock = threading.Lock()
        self.n = 0
        build()

    # -- TLC -----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, args=(), timeout=800, heap="2g"):
        self.n += 1
        work = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        cmd = ["java", "-Xmx" + heap, "-Xss16m",
               "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC",
               "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + work,
               "-DTLA-Library=" + SPEC, "-cp", JARS + ":" + BUILD, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(work, "meta"),
               "-noGenerateSpecTE", "-config", cfg, *args,
               os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=work,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on " + module)
        out = "\n".join(x for x in (r.stdout + r.stderr).splitlines()
                        if not x.startswith(("Parsing file", "Semantic processing", "Loading R")))
        m = STATS.findall(out)
        gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        shutil.rmtree(work, ignore_errors=True)
        return r.returncode, out, gen, dis

    def cfg(self, text):
        path = os.path.join(self.scratch, "c%d.cfg" % self.n)
        self.n += 1
        with open(path, "w") as f:
            f.write(text)
        return path

    def model(self, module, cfg, expect="ok", workers=CORES, env=None, timeout=800, name=None):
        """exhaustive model check of a design; expect 'ok', or the invariant or
        property that this (deliberately broken) variant must violate"""
        path = os.path.join(SPEC, cfg) if cfg.endswith(".cfg") else self.cfg(cfg)
        rc, out, gen, dis = self.tlc(module, path, env=env, workers=workers,
                                     timeout=timeout, heap="6g")
        bad = re.search(r"^Error: .*(is|was|were) violated", out, re.M)
        label = name or (module + "/" + (os.path.basename(cfg) if cfg.endswith(".cfg") else "inline"))
        if expect == "ok":
            if rc or bad or "No error has been found" not in out:
                raise Broken("model %s does not hold:\n%s" % (label, out[-3000:]))
        elif not bad:
            raise Broken("broken variant %s is not detected:\n%s" % (label, out[-3000:]))
        if dis == 0 and expect == "ok":
            raise Broken("model %s: no state\n%s" % (label, out[-2000:]))
        self.states += dis
        self.transitions += gen
        self.models.append(dict(model=label, expect=expect, states=dis, generated=gen))
        return out

    def scenarios(self, module, cfg, mark="SCN", args=(), env=None, timeout=800, workers=1):
        """objects that a generator module prints as JSON"""
        path = os.path.join(SPEC, cfg) if cfg.endswith(".cfg") else self.cfg(cfg)
        rc, out, gen, dis = self.tlc(module, path, args=args, env=env, timeout=timeout,
                                     workers=workers, heap="6g")
        res = [json.loads(x) for x in lines(out, mark)]
        if not res or (rc and "-simulate" not in args):
            raise Broken("generator %s failed:\n%s" % (module, out[-3000:]))
        self.states += dis
        self.transitions += gen
        self.models.append(dict(model=module + " (scenarios)", expect="ok", states=dis,
                                generated=gen, scenarios=len(res)))
        return res

    # -- implementation --------------------------------------------------------
    def replay(self, script, jobs, timeout=700):
        """run harness scripts in parallel: jobs are argument lists; each job writes
        one ndjson trace; returns their paths"""
        paths = []

        def one(k_args):
            k, args = k_args
            out = os.path.join(self.scratch, "%s-%d.ndjson" % (script, k))
            work = tempfile.mkdtemp(prefix="w-", dir=self.scratch)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                       OPENBLAS_NUM_THREADS="1", GEEC_REPO=REPO, TMPDIR=work,
                       NUMBA_CACHE_DIR=work, PYTHONHASHSEED="0")
            try:
                r = subprocess.run([PY, os.path.join(HARNESS, script + ".py"), out,
                                    *map(str, args)],
                                   capture_output=True, text=True, env=env, cwd=work,
                                   timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Broken("replay %s timed out" % script)
            if r.returncode and (REPO + "/geec/" in r.stderr or answer(r.stderr)):
                # GEEC cannot even be imported, or never comes back, or what it gives
                # back cannot be read
                self.fails.append(dict(id=script, module=script, clauses=["stopped"], trace=[],
                                       record=dict(id=script, err=r.stderr[-3000:])))
                return None
            if r.returncode:
                raise Broken("replay %s failed: %s" % (script, (r.stdout + r.stderr)[-3000:]))
            shutil.rmtree(work, ignore_errors=True)
            return out

        with ThreadPoolExecutor(CORES) as ex:
            paths = list(ex.map(one, enumerate(jobs)))
        return [p for p in paths if p]

    def validate(self, module, paths, clauses=None, cfg=None, env=None, timeout=800, per=None):
        """check recorded traces against a trace specification; clauses: the failing
        clauses this property is about (others are reported by their own checks)"""
        path = os.path.join(SPEC, cfg or module + ".cfg")

        def one(p):
            with open(p) as f:
                recs = [json.loads(x) for x in f]
            with open(p + ".tlc", "w") as f:
                for r in recs:
                    f.write(json.dumps({k: v for k, v in r.items() if k not in HIDDEN}) + "\n")
            rc, out, gen, dis = self.tlc(module, path, env=dict(env or {}, TRACE=p + ".tlc"),
                                         timeout=timeout, heap="3g")
            done = lines(out, "DONE")
            if rc and not done and "when TLC was evaluating" in out and "OutOfMemory" not in out:
                # GEEC answered something the specification cannot even read
                print("  " + " ".join(out[-1500:].split())[-600:])
                return p, recs, [["", ["unreadable"]]], gen, dis
            if rc or not done or int(done[-1]) != len(recs):
                raise Broken("trace specification %s stopped:\n%s" % (module, out[-3000:]))
            for x in lines(out, "NOTE"):
                with self.lock:
                    self.demands[x] = self.demands.get(x, 0) + 1
            return p, recs, [json.loads(x) for x in lines(out, "FAIL")], gen, dis

        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(one, paths))
        for p, recs, fails, gen, dis in res:
            self.states += dis
            self.transitions += gen
            self.events += len(recs)
            self.traces += len({r.get("trace", r["id"]) for r in recs})
            byid = {r["id"]: r for r in recs}
            for rid, cl in fails:
                if any(c.startswith("oracle") for c in cl):
                    raise Broken("oracle rejected its own input %s %s" % (rid, cl))
                if not rid:
                    self.fails.append(dict(id="", module=module, clauses=cl, record=dict(id=p), trace=[]))
                    continue
                cl = [c for c in cl if clauses is None or c in clauses]
                if cl:
                    r = byid[rid]
                    t = r.get("trace")
                    self.fails.append(dict(
                        id=rid, module=module, clauses=cl, record=r,
                        trace=[x for x in recs if x.get("trace") == t] if t else []))
            if len(self.samples) < 6 and recs:
                r = recs[len(recs) // 2]
                self.samples.append(brief(r))
        return res

    def need(self, **least):
        """vacuity: the specification must have demanded this much of GEEC"""
        for k, n in least.items():
            got = sum(v for x, v in self.demands.items() if x.endswith("must " + k))
            if got < n:
                raise Broken("only %d demands to %s" % (got, k))

    # -- verdict -----------------------------------------------------------------
    def finish(self, assumptions=()):
        known = []
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    known.append((m.group(2), m.group(3).strip()))
        left = []
        seen = set()
        for f in self.fails:
            key = f["record"].get("key", "")
            hit = [k for k in known if key and k[0] == key]
            if hit:
                seen.add(hit[0])
            else:
                left.append(f)
        for k, text in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   events_validated=self.events, models=self.models,
                   samples=self.samples or ["none"], **self.notes)
        if self.demands:
            cov["demanded"] = dict(sorted(self.demands.items()))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level="model_checking", coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 1),
                  violations=len(left))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if left:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                               total=len(left), violations=left[:20]), f, indent=1)
            for x in left[:5]:
                print("  %s %s: %s %s" % (x["module"], x["id"], ",".join(x["clauses"]),
                                          json.dumps(brief(x["record"]))[:240]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: held on %d traces (%d events), %d states, %.0f s" % (
            self.prop, self.traces, self.events, self.states, time.time() - self.t0))
        return 0

    def close(self):
        if "VERIF_KEEP" in os.environ:
            print("kept", self.scratch)
            return
        shutil.rmtree(self.scratch, ignore_errors=True)


def lines(out, mark):
    """payloads of the lines PrintT("MARK " \\o ...) wrote"""
    res = []
    for x in out.splitlines():
        if x.startswith('"' + mark + " ") and x.endswith('"'):
            res.append(json.loads(x)[len(mark) + 1:])
    return res


def answer(err):
    """a replay that stopped on what GEEC gave it (not for lack of memory or space)"""
    last = err.strip().splitlines()[-1] if err.strip() else ""
    return "Traceback" in err and not last.startswith(("MemoryError", "OSError", "Broken"))


def brief(r):
    """a readable part of a trace line"""
    return {k: v for k, v in r.items()
            if k in ("id", "kind", "raw", "op", "err", "scenario", "key", "ok", "trace")}


def main(prop, fn):
    c = None
    try:
        c = Check(prop)
        fn(c)
        rc = c.finish(getattr(fn, "assumptions", ()))
    except Broken as e:
        print("ERROR %s: %s" % (prop, e), file=sys.stderr)
        rc = 2
    finally:
        if c:
            c.close()
    return rc
