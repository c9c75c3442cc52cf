"""Machinery shared by all checks: running TLC, running drivers against /repo, verdicts, evidence.

Exit codes of a check: 0 held, 1 VIOLATION line printed, 2 machinery failure.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = "/opt/pypyvenv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class Machinery(Exception):
    """The check itself failed; says nothing about the code."""


class TlcResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out, re.M)
        self.generated, self.distinct, self.left = (
            (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0, -1))
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m:
            self.generated = int(m.group(1).replace(",", ""))


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []  # (key, text, replay payload)
        self.notes = {}
        self.assumptions = []
        self.n_file = 0

    # ---------------------------------------------------------------- helpers
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        self.n_file += 1
        return os.path.join(self.work, "%03d_%s" % (self.n_file, name))

    def note(self, key, value):
        self.notes[key] = value

    def count(self, key, value):
        self.notes[key] = self.notes.get(key, 0) + value

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.start), *a, file=sys.stderr, flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, *, workers=NCPU, simulate=None, env=None, timeout=600, heap="3g", seed=None,
            depth=None, ok=True, what="design"):
        """Run TLC on spec/<module>.tla with the given cfg text."""
        meta = self.path("meta")
        os.makedirs(meta)
        cfg_path = os.path.join(meta, module + ".cfg")
        with open(cfg_path, "w") as f:
            f.write(cfg)
        # short runs are dominated by the start of the virtual machine
        cmd = ["java"] + ([] if self.thorough else ["-XX:TieredStopAtLevel=1"]) + [
               "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss64m",
               "-DTLA-Library=" + os.path.join(ROOT, "spec"),
               "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg_path,
               "-workers", str(workers)]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 1000),
                    "-seed", str(seed if seed is not None else self.seed)]
        else:
            cmd += ["-fp", "1"]
        cmd.append(os.path.join(ROOT, "spec", module + ".tla"))
        full_env = dict(os.environ)
        full_env["WORDS"] = os.path.join(ROOT, "spec", "words.json")
        full_env.update({k: str(v) for k, v in (env or {}).items()})
        out_path = os.path.join(meta, "out.txt")
        with open(out_path, "w") as out_f:
            try:
                proc = subprocess.run(cmd, stdout=out_f, stderr=subprocess.STDOUT, env=full_env, timeout=timeout,
                                      cwd=meta)
            except subprocess.TimeoutExpired:
                raise Machinery("TLC %s timed out after %ss" % (module, timeout))
        with open(out_path, encoding="utf-8", errors="replace") as f:
            out = f.read()
        res = TlcResult(out, proc.returncode)
        if ok and (proc.returncode != 0 or (simulate is None and res.left != 0)):
            raise Machinery("TLC %s (%s) failed, rc=%s:\n%s" % (module, what, proc.returncode,
                                                                 re.sub(r"(?m)^(Parsing|Semantic|Linting) .*\n", "", out)[-9000:]))
        if ok:
            self.states += res.distinct if simulate is None else res.generated
            self.transitions += res.generated
        shutil.rmtree(meta, ignore_errors=True)
        return res

    def model_check(self, module, cfg, *, name=None, **kw):
        """Exhaustive check of a design specification with invariants; a violation is a machinery failure."""
        t = time.time()
        res = self.tlc(module, cfg, **kw)
        self.notes.setdefault("design_runs", []).append(
            {"module": module, "config": name or module, "distinct_states": res.distinct,
             "states_generated": res.generated, "wall_s": round(time.time() - t, 1)})
        return res

    @staticmethod
    def printed(res, tag):
        """JSON payloads printed by the specification as one string: "TAG|json"."""
        out = []
        prefix = '"%s|' % tag
        for line in res.out.splitlines():
            if line.startswith(prefix) and line.endswith('"'):
                out.append(json.loads(line[len(prefix):-1].replace('\\"', '"').replace("\\\\", "\\")))
        return out

    # ---------------------------------------------------------------- drivers
    def driver(self, name, cases, *, args=(), timeout=600, jobs=None, chunk=None, per_case_timeout=120):
        """Run drivers/<name>.py under the project's interpreter on a list of JSON cases, return observations.

        One observation per case, in order.  Cases are spread over several processes."""
        if not cases:
            return []
        jobs = jobs or min(NCPU, max(1, len(cases) // 4))
        size = chunk or max(1, (len(cases) + jobs - 1) // jobs)
        parts = [cases[i:i + size] for i in range(0, len(cases), size)]

        def run(part):
            src, dst = self.path("in.ndjson"), self.path("out.ndjson")
            with open(src, "w") as f:
                for c in part:
                    f.write(json.dumps(c) + "\n")
            scratch = self.path("scratch")
            os.makedirs(scratch)
            env = dict(os.environ)
            env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO, VERIF_SCRATCH=scratch,
                       VERIF_CASE_TIMEOUT=str(per_case_timeout), HOME=scratch, LC_ALL="C.UTF-8",
                       PYTHONWARNINGS="ignore", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
            cmd = [PYPY, os.path.join(ROOT, "drivers", name + ".py"), src, dst] + [str(a) for a in args]
            try:
                proc = subprocess.run(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                      timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Machinery("driver %s timed out after %ss" % (name, timeout))
            if proc.returncode != 0:
                raise Machinery("driver %s failed rc=%d: %s" % (name, proc.returncode,
                                                                 proc.stderr.decode("utf-8", "replace")[-3000:]))
            with open(dst) as f:
                res = [json.loads(l) for l in f]
            if len(res) != len(part):
                raise Machinery("driver %s: %d observations for %d cases" % (name, len(res), len(part)))
            os.unlink(src)
            os.unlink(dst)
            shutil.rmtree(scratch, ignore_errors=True)
            return res

        with ThreadPoolExecutor(NCPU) as pool:
            return [o for part in pool.map(run, parts) for o in part]

    # ---------------------------------------------------------------- trace validation
    def validate(self, module, lines, *, constants="", steps=None, canaries=(), timeout=800, heap="6g",
                 replay=None, env=None, count=True):
        """Let TLC check recorded lines against the trace specification spec/<module>.tla.

        steps(line) gives the number of specification steps the line takes (1 by default), so that a
        specification that stops early is noticed.  canaries: corrupted lines that must be rejected.
        Returns {line number: [(step, clause, detail)]} for real lines."""
        broken = None
        if callable(canaries):
            # observations of broken code may not be what the corruption expects; then there are violations
            try:
                canaries = canaries()
            except Exception as e:
                broken, canaries = e, []
        all_lines = list(lines) + list(canaries)
        if not all_lines:
            raise Machinery("nothing to validate for " + module)
        src = self.path("trace.ndjson")
        with open(src, "w") as f:
            for l in all_lines:
                f.write(json.dumps(l, ensure_ascii=True) + "\n")
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + constants
        tlc_env = dict(env or {}, TRACE=src)
        res = self.tlc(module, cfg, env=tlc_env, timeout=timeout, heap=heap, ok=False)
        if res.rc != 0 or res.left != 0:
            return self.unreadable(module, lines, cfg, tlc_env, timeout, heap, res)
        self.states += res.distinct
        self.transitions += res.generated
        nsteps = sum((steps(l) if steps else 1) for l in all_lines)
        expected = nsteps + len(all_lines)
        if res.distinct != expected:
            raise Machinery("trace specification %s consumed %d states, expected %d\n%s"
                            % (module, res.distinct, expected, res.out[-3000:]))
        bad = {}
        found = re.findall(r'^"MISMATCH\|(\d+)\|(\d+)\|([^|]*)\|(.*)"$', res.out, re.M)
        if len(found) != res.out.count("MISMATCH|"):
            raise Machinery("unreadable mismatch lines from %s" % module)
        for line, step, clause, detail in found:
            bad.setdefault(int(line), []).append((int(step), clause, detail))
        n = len(lines)
        if broken is not None and not any(k <= n for k in bad):
            raise Machinery("no corruption possible for %s: %r" % (module, broken))
        if not any(k <= n for k in bad):
            for k in range(n + 1, len(all_lines) + 1):
                if k not in bad:
                    raise Machinery("corrupted observation %d was accepted by %s: %s"
                                    % (k - n, module, json.dumps(all_lines[k - 1])[:800]))
        if count:
            self.traces += n
        if canaries:
            self.count("corrupted_observations_rejected", len(canaries))
        real = {k: v for k, v in bad.items() if k <= n}
        for k in sorted(real):
            for step, clause, detail in real[k][:1]:
                self.violation(clause, "line %d step %d clause %s: %s" % (k, step, clause, detail[:600]),
                               {"module": module, "line": all_lines[k - 1], "mismatches": real[k][:20],
                                "source": replay(k - 1) if replay else None})
        if len(self.samples) < 4 and lines:
            s = json.dumps(lines[len(lines) // 2], ensure_ascii=False)
            self.samples.append({"trace_spec": module, "line": s[:1500]})
        os.unlink(src)
        return real

    def unreadable(self, module, lines, cfg, env, timeout, heap, res):
        """TLC could not evaluate the specification on these lines.  When that is due to one observation that is not
        of the form that the observed operation always has, this observation is the violation."""
        found = re.findall(r'^"MISMATCH\|(\d+)\|(\d+)\|([^|]*)\|(.*)"$', res.out, re.M)
        for line, step, clause, detail in found[:5]:
            if int(line) <= len(lines):
                self.violation(clause, "line %s step %s clause %s: %s" % (line, step, clause, detail[:600]),
                               {"module": module, "line": lines[int(line) - 1], "mismatches": [(step, clause, detail)]})
        text = re.sub(r"(?m)^(Parsing|Semantic|Linting) .*\n", "", res.out)
        if self.violations:
            raise Machinery("TLC %s failed after a violation: %s" % (module, text[-1500:]))

        def fails(out):
            return bool(re.search(r"Attempted to|outside (of )?(its|the) domain|not in the domain|out of domain|"
                                  r"evaluat\w+ (an? )?(CASE|expression)", out)) and "Assert" not in out \
                and "OutOfMemory" not in out
        part = list(lines)
        if not fails(res.out):
            raise Machinery("TLC %s (trace validation) failed, rc=%s:\n%s" % (module, res.rc, text[-9000:]))

        def again(some):
            with open(env["TRACE"], "w") as f:
                for l in some:
                    f.write(json.dumps(l, ensure_ascii=True) + "\n")
            r = self.tlc(module, cfg, env=env, timeout=timeout, heap=heap, ok=False)
            return r.rc != 0 and fails(r.out), r
        while len(part) > 1:
            half = part[:len(part) // 2]
            part = half if again(half)[0] else part[len(half):]
        bad, r = again(part)
        if not bad:
            raise Machinery("TLC %s (trace validation) failed on no single line:\n%s" % (module, text[-9000:]))
        why = " ".join(re.findall(r"Attempted to[^\n]*", r.out)[:1])
        self.violation("malformed", "an observation is not of the form of its operation: %s" % why[:300],
                       {"module": module, "line": part[0], "mismatches": []})
        return {}

    def violation(self, key, text, payload):
        self.violations.append((key, text, payload))

    # ---------------------------------------------------------------- ending
    def known(self):
        keys = {}
        p = os.path.join(ROOT, "KNOWN_FINDINGS")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known: property=(\S+) (\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    keys[m.group(2)] = m.group(3).strip()
        return keys

    def finish(self, level="model_checking"):
        known = self.known()
        for key, text in known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        real = [v for v in self.violations if v[0] not in known]
        rc = 0
        if real:
            rc = 1
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            for i, (key, text, payload) in enumerate(real[:5]):
                path = os.path.join(ROOT, "replays", "%s_%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "key": key, "text": text, "seed": self.seed,
                               "tier": self.tier, "payload": payload}, f, ensure_ascii=False, indent=1)
                print("# " + text.replace("\n", " ")[:1000])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
        coverage = {"states": self.states, "transitions": self.transitions,
                    "traces_validated_against_impl": self.traces, "samples": self.samples}
        coverage.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": coverage, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.start, 2), "violations": len(real)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        self.log("exit", rc, "states", self.states, "transitions", self.transitions, "traces", self.traces)
        return rc

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)
