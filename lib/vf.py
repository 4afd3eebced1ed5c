"""Common machinery of the checks: building, running TLC, reporting.

A check is a module checks/<id>.py with a function run(c), where c is a Check.
It calls c.model(...) to model check a specification, c.validate(...) to
validate recorded behaviour of the implementation against a specification, and
c.violation(...) when the implementation breaks the property.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ESPECIA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CXX = ["g++", "-std=gnu++11", "-O2", "-DNDEBUG", "-pthread"]
MEMORY = 16 << 30
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    """Something is wrong with the machinery (never a verdict)."""


class Violation(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def _hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as s:
            h.update(s.read())
    return h.hexdigest()[:16]


def repo_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src/main")):
        r += [os.path.join(d, f) for f in fs]
    return r


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise MachineryError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def java_classes():
    """Compiles the operator overrides; returns the class directory."""
    src = glob.glob(os.path.join(VERIF, "java/especia/*.java"))
    out = os.path.join(BUILD, "java-" + _hash(src))
    with _Lock("java"):
        if not os.path.exists(os.path.join(out, ".done")):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            _run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", out] + src)
            open(os.path.join(out, ".done"), "w").close()
    return out


def _build_dir():
    out = os.path.join(BUILD, "cxx-" + _hash(repo_sources()))
    os.makedirs(out, exist_ok=True)
    cfg = os.path.join(out, "config.h")
    if not os.path.exists(cfg):
        s = open(os.path.join(REPO, "src/main/cxx-filtered/config.h")).read()
        v = {"PROJECT_NAME": "especia", "PROJECT_TITLE": "Especia", "PROJECT_VERSION": "0", "PROJECT_REVISION": "",
             "PROJECT_DOI": "doi", "PROJECT_DOI_HTML": "doi", "PROJECT_URL": "url", "CMAKE_SYSTEM": "system",
             "CMAKE_CXX_COMPILER_ID": "GNU", "CMAKE_CXX_COMPILER_VERSION": "0"}
        s = re.sub(r"@(\w+)@", lambda m: v.get(m.group(1), ""), s)
        with open(cfg + ".tmp%d" % os.getpid(), "w") as f:
            f.write(s)
        os.rename(cfg + ".tmp%d" % os.getpid(), cfg)
    return out


def _compile_all(jobs):
    """jobs: list of (target, command); runs those whose target is missing, concurrently."""
    todo = [(t, c) for t, c in jobs if not os.path.exists(t)]

    def one(tc):
        t, c = tc
        tmp = t + ".tmp%d" % os.getpid()
        _run(c + ["-o", tmp])
        os.rename(tmp, t)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(one, x) for x in todo]:
            f.result()


def _core_jobs(out):
    jobs = []
    for s in sorted(glob.glob(os.path.join(REPO, "src/main/cxx/core/*.cxx"))):
        o = os.path.join(out, "core-" + os.path.basename(s)[:-4] + ".o")
        jobs.append((o, CXX + ["-I" + out, "-I" + os.path.join(REPO, "src/main/cxx/core"), "-c", s]))
    return jobs


LIBS = ["-llapack", "-lblas", "-pthread"]


def harness(name):
    """Builds harness/<name>.cxx with the sources of the repository's working tree."""
    src = os.path.join(VERIF, "harness", name + ".cxx")
    with _Lock("cxx"):
        out = _build_dir()
        core = _core_jobs(out)
        hs = [src] + glob.glob(os.path.join(VERIF, "harness/*.h"))
        key = _hash(hs)
        o = os.path.join(out, "%s-%s.o" % (name, key))
        inc = ["-I" + out, "-I" + os.path.join(REPO, "src/main/cxx/core"), "-I" + os.path.join(VERIF, "harness")]
        _compile_all(core + [(o, CXX + inc + ["-c", src])])
        exe = os.path.join(out, "%s-%s" % (name, key))
        _compile_all([(exe, CXX + [o] + [t for t, _ in core] + LIBS)])
    return exe


def apps(*names):
    """Builds the named programs (apps or utilities); returns the directory they are in."""
    with _Lock("cxx"):
        out = _build_dir()
        bin_ = os.path.join(out, "bin")
        os.makedirs(bin_, exist_ok=True)
        core = _core_jobs(out)
        jobs, link = [], []
        for n in names:
            for d in ("apps", "util"):
                s = os.path.join(REPO, "src/main/cxx", d, n + ".cxx")
                if os.path.exists(s):
                    o = os.path.join(out, "app-%s.o" % n)
                    inc = ["-I" + out, "-I" + os.path.join(REPO, "src/main/cxx/core")]
                    jobs.append((o, CXX + inc + ["-c", s]))
                    link.append((os.path.join(bin_, n), CXX + [o] + [t for t, _ in core] + LIBS))
                    break
            else:
                raise MachineryError("no such program: " + n)
        _compile_all(core + jobs)
        _compile_all(link)
    return bin_


def script(name):
    for d in ("scripts", "scripts-filtered"):
        s = os.path.join(REPO, "src/main", d, name)
        if os.path.exists(s):
            return s
    raise MachineryError("no such script: " + name)


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = self.distinct = int(m[-1])

    @property
    def ok(self):
        return self.rc == 0

    @property
    def rejected(self):
        """10 assumption, 11 deadlock, 12 safety, 13 liveness."""
        return self.rc in (10, 11, 12, 13)

    def prints(self, tag):
        """Values printed as <<"tag", ...>>, as raw text."""
        r = []
        for m in re.finditer(r'^<<\s*"%s",(.*?)>>\s*$' % re.escape(tag), self.out, re.M | re.S):
            r.append(" ".join(m.group(1).split()))
        return r


def tlc(module, cfg, scratch, env=None, workers=None, args=(), timeout=800, heap="3g", deadlock=True):
    """Runs TLC on spec/<module>.tla with a configuration given as text."""
    jc = java_classes()
    d = tempfile.mkdtemp(prefix=module + "-", dir=scratch)
    cfgf = os.path.join(d, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    w = workers or 1
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:especia.EspeciaOverrides",
           "-cp", ":".join([jc, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]), "tlc2.TLC",
           "-workers", str(w), "-metadir", os.path.join(d, "states"), "-fp", "0", "-noGenerateSpecTE",
           "-config", cfgf] + ([] if deadlock else ["-deadlock"]) + list(args) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           env=e, cwd=d, timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = -1, "TIMEOUT\n" + ((x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""))
    r = TLCResult(rc, out, time.time() - t0)
    shutil.rmtree(d, ignore_errors=True)
    return r


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.parts = {}
        self.known = []
        self._kf = {}
        kf = os.path.join(VERIF, "known-findings.json")
        if os.path.exists(kf):
            self._kf = {k["key"]: k for k in json.load(open(kf)).get("findings", []) if k["property"] == pid}

    # -- reporting ---------------------------------------------------------

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def part(self, name, **kw):
        self.parts.setdefault(name, {}).update(kw)

    def violation(self, what, replay, key=None):
        """Reports a violation (key identifies the failing input in the known findings)."""
        if key is not None and key in self._kf:
            if key not in self.known:
                self.known.append(key)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self._kf[key]["what"]), flush=True)
            return
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha256(what.encode()).hexdigest()[:8]))
        with open(f, "w") as s:
            json.dump({"property": self.pid, "what": what, "replay": replay, "seed": self.seed, "tier": self.tier}, s,
                      indent=1, default=str)
        log("violation:", what)
        print("VIOLATION property=%s replay=%s" % (self.pid, f), flush=True)
        raise Violation(what)

    def finish(self, level="model_checking"):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples or ["none"], "parts": self.parts}
        if self.known:
            cov["known_findings"] = self.known
        e = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        f = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(f + ".tmp", "w") as s:
            json.dump(e, s, indent=1, default=str)
        os.rename(f + ".tmp", f)

    # -- model checking of the specification itself ------------------------

    def model(self, module, cfg, name=None, env=None, workers=None, args=(), timeout=800, deadlock=True, heap="6g",
              expect_states=1):
        """Model checks a specification (a failure is an error of the machinery: the design is ours)."""
        r = tlc(module, cfg, self.scratch, env=env, workers=workers or min(4, NCPU), args=args, timeout=timeout,
                deadlock=deadlock, heap=heap)
        if not r.ok:
            raise MachineryError("model checking %s failed (rc %d)\n%s" % (module, r.rc, r.out[-5000:]))
        if r.distinct < expect_states:
            raise MachineryError("model %s is vacuous: %d states" % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.part("model " + (name or module), states=r.distinct, transitions=r.generated, wall_s=round(r.wall, 1))
        return r

    def expect_model_failure(self, module, cfg, name, env=None, deadlock=True, args=()):
        """A deliberately broken variant of the design must be refuted (guards against vacuity)."""
        r = tlc(module, cfg, self.scratch, env=env, workers=2, deadlock=deadlock, args=args)
        if not r.rejected:
            raise MachineryError("broken variant %s of %s is not refuted (rc %d)\n%s" % (name, module, r.rc, r.out[-3000:]))
        self.part("refuted variant " + name, module=module)
        return r

    def enumerate(self, module, cfg, tag="CASE", env=None, workers=1, args=(), timeout=800, deadlock=False, heap="6g"):
        """Runs a generating specification that prints <<"CASE", ToJson(...)>>; returns the decoded cases."""
        r = tlc(module, cfg, self.scratch, env=env, workers=workers, args=args, timeout=timeout, deadlock=deadlock,
                heap=heap)
        if not r.ok:
            raise MachineryError("enumeration by %s failed (rc %d)\n%s" % (module, r.rc, r.out[-5000:]))
        self.states += r.distinct
        self.transitions += r.generated
        cases = []
        for m in re.finditer(r'^<<\s*"%s",\s*("(?:[^"\\]|\\.)*")\s*>>\s*$' % re.escape(tag), r.out, re.M):
            cases.append(json.loads(_unquote(m.group(1))))
        self.part("enumerated " + module + " " + tag, states=r.distinct, cases=len(cases), wall_s=round(r.wall, 1))
        if not cases:
            raise MachineryError("enumeration by %s yields no case\n%s" % (module, r.out[-3000:]))
        return cases

    # -- running the implementation -----------------------------------------

    def exe(self, cmd, stdin=None, timeout=300, cwd=None, env=None, binary=False):
        """Runs a program of the implementation; returns (rc, stdout, stderr); rc < 0 signal, None timeout."""
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = ["prlimit", "--as=%d" % MEMORY] + list(cmd)  # broken code may demand any amount
        try:
            p = subprocess.run(cmd, input=stdin if binary else (stdin.encode() if stdin is not None else b""),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd or self.scratch,
                               env=e)
        except subprocess.TimeoutExpired:
            return None, b"" if binary else "", b"" if binary else ""
        if binary:
            return p.returncode, p.stdout, p.stderr
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")

    def record(self, exe, cases, what, timeout=300, env=None):
        """Runs a harness on cases (one JSON per line on stdin); returns the records (one JSON per line).

        A harness that crashes or hangs on an admissible case has met broken code: that is a violation."""
        text = "".join(json.dumps(x) + "\n" for x in cases)
        for attempt in (1, 2):
            rc, out, err = self.exe([exe], stdin=text, timeout=timeout, env=env)
            if rc == 0:
                break
            if rc == 3:
                raise MachineryError("harness: " + err[-2000:])
        else:
            n = out.count("\n")
            self.violation("%s: the implementation %s (after %d records) %s" % (
                what, "hangs" if rc is None else "ends abnormally with status %d" % rc, n, err[-300:]),
                {"cases": cases[-50:], "stderr": err[-2000:], "records": out[-2000:]})
        return [json.loads(x) for x in out.splitlines() if x.strip()]

    # -- validating recorded behaviour against the specification -------------

    def validate(self, module, cfg, records, what, chunks=None, timeout=800, env=None, heap="3g", atomic=None,
                 explain=None, key=None):
        """Validates records (NDJSON) against spec/<module>.tla, in parallel chunks.

        The specification reads the file named by the environment variable TRACE and deadlocks (or violates an
        invariant) when it rejects a record, after printing <<"REJECTED", l, clause, ...>>. `atomic` is the name of the
        field which starts a new trace (records are only split there)."""
        if not records:
            raise MachineryError("nothing was recorded for " + what)
        groups = []
        for x in records:
            if atomic is None or not groups or x.get("e") == atomic:
                groups.append([x])
            else:
                groups[-1].append(x)
        n = min(len(groups), chunks or NCPU)
        parts = [[] for _ in range(n)]
        size = [0] * n
        for g in groups:
            i = size.index(min(size))
            parts[i] += g
            size[i] += sum(len(json.dumps(x)) for x in g) if atomic else len(json.dumps(g[0]))
        parts = [p for p in parts if p]

        def one(i, p):
            f = os.path.join(self.scratch, "trace-%s-%d-%d.ndjson" % (module, os.getpid(), i))
            f = tempfile.mktemp(prefix="trace-%s-" % module, suffix=".ndjson", dir=self.scratch)
            with open(f, "w") as s:
                for x in p:
                    s.write(json.dumps(x) + "\n")
            ee = dict(env or {})
            ee["TRACE"] = f
            r = tlc(module, cfg, self.scratch, env=ee, workers=1, timeout=timeout, heap=heap)
            if not r.ok:
                r = tlc(module, cfg, self.scratch, env=ee, workers=1, timeout=timeout, heap=heap)
            os.unlink(f)
            return p, r

        t0 = time.time()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            results = [f.result() for f in [ex.submit(one, i, p) for i, p in enumerate(parts)]]
        for p, r in results:
            self.states += r.distinct
            self.transitions += r.generated
            if r.ok:
                continue
            rej = r.prints("REJECTED")
            m = re.match(r"\s*(\d+)", rej[-1]) if rej else None
            if not r.rejected and not (r.rc > 0 and "evaluat" in r.out and os.environ.get("VF_STRICT") != "1"):
                raise MachineryError("TLC failed on a trace of %s (rc %d)\n%s" % (what, r.rc, "\n".join(x for x in r.out.splitlines() if "rror" in x)[:2000] + "\n...\n" + r.out[-2500:]))
            l = int(m.group(1)) if m else None
            rec = p[l - 1] if l and l <= len(p) else None
            txt = rej[-1] if rej else r.out[-1500:]
            if explain:
                txt = explain(rec, txt)
            self.violation("%s: record rejected by %s: %s" % (what, module, txt[:1500]),
                           {"rejected": rec, "clauses": rej[-5:], "context": p[max(0, (l or 1) - 4):(l or 1)],
                            "tlc": r.out[-3000:]}, key=key(rec, rej) if key else None)
        self.traces += len(groups)
        self.events += len(records)
        self.part("validated " + what, traces=len(groups), events=len(records), wall_s=round(time.time() - t0, 1))

    def expect_reject(self, module, cfg, records, what, env=None):
        """A corrupted record must be rejected (demonstrates that the specification binds the trace)."""
        f = tempfile.mktemp(prefix="corrupt-", suffix=".ndjson", dir=self.scratch)
        with open(f, "w") as s:
            for x in records:
                s.write(json.dumps(x) + "\n")
        ee = dict(env or {})
        ee["TRACE"] = f
        r = tlc(module, cfg, self.scratch, env=ee, workers=1)
        if not r.rejected:
            raise MachineryError("corrupted trace is accepted by %s: %s (rc %d)\n%s" % (module, what, r.rc, r.out[-2000:]))
        p = self.parts.setdefault("corrupted traces rejected", {"count": 0, "what": []})
        p["count"] += 1
        p["what"].append(what)


def _unquote(s):
    """TLC prints strings with \\" and \\\\ escapes."""
    return re.sub(r'\\(.)', lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), s[1:-1])


def main(argv):
    if len(argv) != 3 or argv[2] not in ("quick", "thorough"):
        log("usage: check.py <property> quick|thorough")
        return 3
    pid, tier = argv[1], argv[2]
    import importlib
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = importlib.import_module(pid.lower())
    c = Check(pid, tier)
    try:
        mod.run(c)
        c.finish(getattr(mod, "LEVEL", "model_checking"))
        print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
            pid, c.states, c.transitions, c.traces, c.events, time.time() - c.t0))
        return 0
    except Violation:
        c.finish(getattr(mod, "LEVEL", "model_checking"))
        return 1
    except MachineryError as e:
        log("MACHINERY ERROR:", e)
        return 3
    finally:
        if os.environ.get("VF_KEEP") != "1":
            shutil.rmtree(c.scratch, ignore_errors=True)
