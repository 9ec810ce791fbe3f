"""Shared machinery: build harnesses from /repo's working tree, run them, let
TLC judge the recorded traces against the TLA+ specification, write evidence."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SHIM = os.path.join(VERIF, "shim")
EVID = os.path.join(VERIF, "evidence")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


class MachineryError(Exception):
    """The check itself could not give an answer (exit 2, never a violation)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


def chars(s):
    """A byte string as the sequence of character codes the specs work on."""
    if isinstance(s, str):
        s = s.encode("latin-1")
    return list(s)


def _classpath():
    cp = [TLA_JAR]
    d = os.path.dirname(TLA_JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and f != "tla2tools.jar":
            cp.append(os.path.join(d, f))
    return ":".join(cp)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.samples = []
        self.assumptions = []
        self.known = []
        self.distinct = set()
        self.kinds = {}
        self.violations = 0

    # ------------------------------------------------------------- scale
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------- build
    def build(self, name, sources, repo_sources=(), defines=(), libs=(),
              flags=(), san=True, opt="-O1", shim=False, includes=()):
        """Compile harness sources (in /verif/harness) plus sources of /repo."""
        out = os.path.join(self.tmp, "bin-" + name)
        base = ["g++", "-std=c++20", opt, "-g1", "-w", "-pthread",
                "-I" + REPO, "-I" + HARNESS, "-I/usr/include/eigen3"]
        if shim:
            base += ["-I" + SHIM]
        for i in includes:
            base += ["-I" + i]
        if san:
            base += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                     "-fno-sanitize=vptr"]
        base += ["-D" + d for d in defines] + list(flags)
        jobs = []
        for s in list(sources) + [os.path.join(REPO, r) for r in repo_sources]:
            src = s if os.path.isabs(s) else os.path.join(HARNESS, s)
            obj = os.path.join(self.tmp, "%s-%s.o" % (
                name, hashlib.md5(src.encode()).hexdigest()[:10]))
            jobs.append((src, obj))

        def comp(job):
            return job[0], subprocess.run(base + ["-c", job[0], "-o", job[1]],
                                          stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for src, r in ex.map(comp, jobs):
                if r.returncode != 0:
                    raise MachineryError("does not compile: %s\n%s" %
                                         (src, r.stdout[-6000:]))
        cmd = base + [o for _, o in jobs] + ["-o", out] + list(libs)
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and "undefined reference" in r.stdout:
            # a helper may have moved to another source file of /repo: offer
            # everything else that compiles on its own
            have = set(j[0] for j in jobs)
            extra = []
            for d in ("common", "base", "ddecal", "ddecal/linear_solvers", "sky_model",
                      "parmdb", "aartfaac", "ddecal/constraints", "steps"):
                dd = os.path.join(REPO, d)
                if os.path.isdir(dd):
                    for f in sorted(os.listdir(dd)):
                        if f.endswith(".cc") and os.path.join(dd, f) not in have:
                            src = os.path.join(dd, f)
                            extra.append((src, os.path.join(self.tmp, "%s-%s.o" % (
                                name, hashlib.md5(src.encode()).hexdigest()[:10]))))
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                ok = [j[1] for j, (_, q) in zip(extra, ex.map(comp, extra)) if q.returncode == 0]
            lib = os.path.join(self.tmp, "lib%s-extra.a" % name)
            if ok:
                subprocess.run(["ar", "rcs", lib] + ok, check=True)
                r = subprocess.run(base + [o for _, o in jobs] + [lib, "-o", out] + list(libs),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise MachineryError("does not link: %s\n%s" % (name, r.stdout[-6000:]))
        return out

    # --------------------------------------------------------------- run
    def run_driver(self, binary, script, timeout=120, args=(), env=None):
        """Run a driver on an ndjson script; returns the list of observed
        events.  A crash, sanitizer report or hang is an observation too: the
        driver's last, unanswered event is returned marked 'crash'."""
        sp = os.path.join(self.tmp, "script-%d.ndjson" % random.getrandbits(48))
        op = sp.replace("script-", "out-")
        with open(sp, "w") as f:
            for e in script:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        e2 = dict(os.environ)
        e2["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000"
        e2["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=1"
        e2["OPENBLAS_NUM_THREADS"] = "1"
        e2["OMP_NUM_THREADS"] = "1"
        e2["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
        e2["LC_ALL"] = "C"
        e2["TZ"] = "UTC"
        if env:
            e2.update(env)
        wd = tempfile.mkdtemp(dir=self.tmp)
        p = subprocess.Popen([binary, sp, op] + list(args), cwd=wd, env=e2,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             start_new_session=True)
        why = None
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            why = "hang (no answer within %d s)" % timeout
        out = out.decode("latin-1")
        events = []
        if os.path.exists(op):
            with open(op, encoding="latin-1") as f:
                for line in f:
                    line = line.strip()
                    if not line:
                        continue
                    try:
                        events.append(json.loads(line))
                    except ValueError:
                        break
        shutil.rmtree(wd, ignore_errors=True)
        os.unlink(sp)
        if os.path.exists(op):
            os.unlink(op)
        if why is None and p.returncode != 0:
            if p.returncode == 77:
                raise MachineryError("driver refused its script:\n" + out[-3000:])
            why = "exit %d\n%s" % (p.returncode, out[:3000] + out[-3000:] if len(out) > 6000 else out)
        if why is None and len(events) != len(script):
            raise MachineryError("driver answered %d of %d events\n%s" %
                                 (len(events), len(script), out[-2000:]))
        return events, why

    # --------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, simulate=None, depth=None,
            timeout=800, heap="6g", extra=()):
        md = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-DTLA-Library=" + SPEC, "-cp", _classpath(), "tlc2.TLC",
               "-metadir", md, "-workers", str(workers), "-nowarning", "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, cfg)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)]
            cmd += ["-depth", str(depth or 100)]
        cmd += list(extra)
        cmd += [os.path.join(SPEC, module)]
        e2 = dict(os.environ)
        if env:
            e2.update({k: str(v) for k, v in env.items()})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=e2,
                               timeout=timeout, cwd=md)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout: " + module)
        out = r.stdout.decode("utf-8", "replace")
        shutil.rmtree(md, ignore_errors=True)
        return r.returncode, out

    def model(self, module, cfg=None, env=None, workers=8, timeout=800,
              simulate=None, depth=None):
        """Check a specification on its own.  Failure is a machinery error:
        the model is wrong, which says nothing about the code."""
        cfg = cfg or module.replace(".tla", ".cfg")
        rc, out = self.tlc(module, cfg, env, workers, simulate, depth, timeout)
        if rc != 0:
            raise MachineryError("model check of %s/%s failed (rc %d)\n%s" %
                                 (module, cfg, rc, out[-5000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if not simulate and dist == 0:
            raise MachineryError("model %s explored nothing\n%s" % (module, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "cfg": cfg, "states": dist,
                            "generated": gen})
        return out

    def behaviours(self, module, cfg=None, env=None, simulate=None, depth=None,
                   timeout=600, tag="@@B@@"):
        """Behaviours printed by a generating spec: lines  <<"@@B@@", "json">>"""
        cfg = cfg or module.replace(".tla", ".cfg")
        rc, out = self.tlc(module, cfg, env, 1, simulate, depth, timeout)
        if rc != 0:
            raise MachineryError("generation with %s failed (rc %d)\n%s" %
                                 (module, rc, out[-4000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        if m and not simulate:
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
            self.models.append({"module": module, "cfg": cfg,
                                "states": int(m.group(2)),
                                "generated": int(m.group(1))})
        res = []
        for line in out.splitlines():
            if line.startswith('<<"' + tag + '", "'):
                body = line[len('<<"' + tag + '", "'):-len('">>')]
                body = body.replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(body))
        if not res:
            raise MachineryError("no behaviours from %s\n%s" % (module, out[-3000:]))
        return res

    def _validate(self, module, events, cfg, timeout, env=None):
        tp = os.path.join(self.tmp, "trace-%d.ndjson" % random.getrandbits(48))
        with open(tp, "w") as f:
            for e in events:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        ee = {"VERIF_TRACE": tp}
        ee.update(env or {})
        rc, out = self.tlc(module, cfg, ee, 8, timeout=timeout)
        os.unlink(tp)
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if rc == 0:
            if dist != len(events):
                raise MachineryError(
                    "%s visited %d states for %d events\n%s" %
                    (module, dist, len(events), out[-2000:]))
            self.states += dist
            self.transitions += gen
            return None
        if rc == 12 and "Invariant TraceOk is violated" in out:
            # last state printed
            idx = [int(x) for x in re.findall(r"/\\ i = (\d+)", out)]
            return idx[-1], out
        raise MachineryError("TLC could not judge the trace with %s (rc %d)\n%s" %
                             (module, rc, out[-6000:]))

    def conform(self, binary, script, module, cfg="Trace.cfg", timeout=800,
                driver_timeout=120, args=(), label=None, env=None,
                deterministic=True):
        """Run script (histories starting with op 'new') in the real code and
        have TLC check every observed event against the specification."""
        assert script and script[0]["op"] == "new"
        label = label or module
        events, why = self.run_driver(binary, script, driver_timeout, args)
        if why is not None:
            self._crash(binary, script, len(events), why, driver_timeout, args,
                        module)
        for e in events:
            k = e.get("op", "?")
            self.kinds[k] = self.kinds.get(k, 0) + 1
        bad = self._validate(module, events, cfg, timeout, env)
        if bad is not None:
            i, out = bad
            s = i
            while events[s - 1]["op"] != "new":
                s -= 1
            hist_script = script[s - 1:i]
            for attempt in range(1 if deterministic else 0):
                ev2, why2 = self.run_driver(binary, hist_script, driver_timeout, args)
                if why2 is not None:
                    self._crash(binary, hist_script, len(ev2), why2,
                                driver_timeout, args, module)
                bad2 = self._validate(module, ev2, cfg, timeout, env)
                if bad2 is None:
                    # only fails with the preceding histories: replay all
                    ev2, why2 = self.run_driver(binary, script[:i], driver_timeout, args)
                    bad3 = None
                    if why2 is None:
                        bad3 = self._validate(module, ev2, cfg, timeout, env)
                    if bad3 is None:
                        raise MachineryError(
                            "rejection not reproducible: " + json.dumps(events[i - 1])[:2000])
                    hist_script = script[:i]
            self._violate("%s rejects event %s" %
                          (label, json.dumps(events[i - 1])[:1500]),
                          {"module": module, "script": hist_script,
                           "observed": events[s - 1:i], "tlc": out[-3000:]})
        nh = sum(1 for e in script if e["op"] == "new")
        self.traces += nh
        self.events += len(events) - nh
        for e in script:
            if e["op"] != "new" and len(self.distinct) < 2000000:
                self.distinct.add(hash(json.dumps(e, sort_keys=True)))
        if len(self.samples) < 8:
            pick = [e for e in events if e["op"] != "new"]
            if pick:
                self.samples.append({"spec": label,
                                     "event": json.loads(json.dumps(
                                         pick[len(pick) // 2])[:100000])})
        return events

    def known_finding(self, binary, script, module, text, cfg="Trace.cfg"):
        """Replay the history of a recorded finding; it is reported (and does
        not fail the check) while the specification still rejects it."""
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            listed = "open: property=%s %s" % (self.prop, text) in f.read().splitlines()
        if not listed:
            raise MachineryError("finding is not listed: " + text)
        events, why = self.run_driver(binary, script)
        if why is not None or self._validate(module, events, cfg, 300) is not None:
            self.known.append(text)

    def _crash(self, binary, script, done, why, dt, args, module):
        k = min(done, len(script) - 1)
        s = k
        while script[s]["op"] != "new":
            s -= 1
        hist = script[s:k + 1]
        if "FATAL: ThreadSanitizer" in why:
            raise MachineryError("ThreadSanitizer cannot run here: " + why[:500])
        if "ThreadSanitizer" in why:      # a reported race needs no repetition
            self._violate("data race on %s: %s" % (json.dumps(script[k])[:600], why.strip()[:1500]),
                          {"module": module, "script": hist, "crash": why})
        ev2, why2 = self.run_driver(binary, hist, dt, args)
        if why2 is None:
            hist = script[:k + 1]
            ev2, why2 = self.run_driver(binary, hist, dt, args)
            if why2 is None:
                raise MachineryError("crash not reproducible: " + why)
        self._violate("the code crashes or hangs on %s: %s" %
                      (json.dumps(script[k])[:800], why2.strip()[:1500]),
                      {"module": module, "script": hist, "crash": why2})

    def _violate(self, what, replay):
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, "replay-%s.json" % self.prop)
        replay = dict(replay)
        replay["property"] = self.prop
        replay["what"] = what
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        self.violations += 1
        raise Violation(what, path)

    # ---------------------------------------------------------- evidence
    def evidence(self, level="model_checking"):
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "evaluations": self.events,
                "distinct_nontrivial": len(self.distinct),
                "rule": "evaluations: events executed by the real code and "
                        "judged by TLC against the specification; "
                        "distinct_nontrivial: distinct by full event content "
                        "(history openers not counted)",
                "samples": self.samples or [{"none": True}],
                "event_kinds": self.kinds,
                "models": self.models,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": self.violations,
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def hist(events, every=64):
    """Stateless events: wrap in histories of bounded length."""
    res = []
    for k, e in enumerate(events):
        if k % every == 0:
            res.append({"op": "new"})
        res.append(e)
    return res


# Source lists of /repo per component
PARSET = ["common/StringTools.cc", "common/ParameterValue.cc",
          "common/ParameterRecord.cc", "common/ParameterSet.cc",
          "common/ParameterSetImpl.cc"]
