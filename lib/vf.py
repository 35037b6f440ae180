"""Common machinery of the checks: build from /repo's working tree, run TLC, report."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NPROC = os.cpu_count() or 4
CXX = ["g++", "-std=c++17", "-O1", "-DNDEBUG", "-DTBB_SUPPRESS_DEPRECATED_MESSAGES", "-fopenmp",
       "-w", "-I" + os.path.join(VERIF, "stub")]
LIBS = ["-fopenmp", "-lyaml-cpp", "-lduktape", "-lann", "-ltbb", "-lgmsh", "-lpthread"]
ALL_SOURCES = ["settings", "time_integration", "solver", "electrostatSolver",
               "spinAccumulationSolver", "read", "save", "linear_algebra", "recentering", "tetra",
               "energy", "triangle", "expression_parser", "chronometer", "tags", "mesh"]


class CheckError(Exception):
    """The check itself failed (neither a pass nor a violation)."""


def log(*a):
    print("[vf]", *a, file=sys.stderr, flush=True)


def thorough():
    return TIER == "thorough"


# ------------------------------------------------------------------ build
def _hash_tree(path):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(path)):
        dirs[:] = sorted(x for x in dirs if x != "CMakeFiles")
        for f in sorted(files):
            if f in ("config.h", "default-settings.o", "cmake_install.cmake") or f.endswith(".o"):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, path).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


class Tree:
    """A private copy of /repo's sources, with config.h generated, and objects compiled from it.
    Nothing is written in /repo."""

    def __init__(self, one_gauss=0, first_order=0, seq=0, extra=()):
        self.flags = list(extra)
        key = hashlib.sha256((_hash_tree(os.path.join(REPO, "src")) + _hash_tree(os.path.join(VERIF, "stub"))
                              + repr((one_gauss, first_order, seq, self.flags, CXX, LIBS))).encode()).hexdigest()[:16]
        self.dir = os.path.join(BUILD, "tree-" + key)
        self.src = os.path.join(self.dir, "src")
        os.makedirs(BUILD, exist_ok=True)
        self.lockf = open(os.path.join(BUILD, "lock-" + key), "w")
        fcntl.flock(self.lockf, fcntl.LOCK_EX)
        try:
            if not os.path.exists(os.path.join(self.dir, "ready")):
                shutil.rmtree(self.dir, ignore_errors=True)
                os.makedirs(self.dir)
                shutil.copytree(os.path.join(REPO, "src"), self.src,
                                ignore=shutil.ignore_patterns("CMakeFiles", "config.h", "*.o", "cmake_install.cmake"))
                self._config(one_gauss, first_order, seq)
                subprocess.run(["ld", "-r", "-b", "binary", "-z", "noexecstack", "default-settings.yml",
                                "-o", "default-settings.o"], cwd=self.src, check=True)
                open(os.path.join(self.dir, "ready"), "w").close()
        finally:
            fcntl.flock(self.lockf, fcntl.LOCK_UN)
        self._prune()

    def _prune(self):
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("tree-")]
        ds.sort(key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)
        os.utime(self.dir)
        for d in ds[:-12]:
            if d != self.dir:
                shutil.rmtree(d, ignore_errors=True)

    def _config(self, one_gauss, first_order, seq):
        s = open(os.path.join(self.src, "config.h.in")).read()
        s = s.replace("@FEELLGOOD_VERSION@", "verif")
        vals = {"ONE_GAUSS_POINT": one_gauss, "FIRST_ORDER": first_order, "ENABLE_SEQ": seq}
        s = re.sub(r"#cmakedefine01 (\w+)", lambda m: "#define %s %d" % (m.group(1), vals.get(m.group(1), 0)), s)
        s = re.sub(r"@(\w+)@", "", s)
        open(os.path.join(self.src, "config.h"), "w").write(s)

    def sources(self):
        """The library sources: those of the tree except main (new files of a refactoring included)."""
        return [f[:-4] for f in sorted(os.listdir(self.src)) if f.endswith(".cpp") and f != "main.cpp"]

    def compile(self, jobs, allow_fail=False):
        """jobs: list of (source path, object name, extra flags). Compiles in parallel, cached."""
        fcntl.flock(self.lockf, fcntl.LOCK_EX)
        try:
            def one(j):
                src, name, fl = j
                sig = hashlib.sha256(open(src, "rb").read() + repr(fl).encode())
                for h in sorted(os.listdir(os.path.join(VERIF, "harness"))):
                    if h.endswith((".h", ".hpp")) and src.startswith(VERIF):
                        sig.update(open(os.path.join(VERIF, "harness", h), "rb").read())
                out = os.path.join(self.dir, name + "-" + sig.hexdigest()[:10] + ".o")
                if os.path.exists(out):
                    return out, None
                r = subprocess.run(CXX + self.flags + list(fl) + ["-I" + self.src, "-c", src, "-o", out + ".tmp"],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    return None, "compiling %s failed:\n%s" % (src, r.stdout[-4000:])
                os.rename(out + ".tmp", out)
                return out, None
            with ThreadPoolExecutor(NPROC) as ex:
                res = list(ex.map(one, jobs))
        finally:
            fcntl.flock(self.lockf, fcntl.LOCK_UN)
        for o, e in res:
            if e and not allow_fail:
                raise CheckError(e)
        return [o for o, e in res] if not allow_fail else res

    def link(self, objs, exe, flags=()):
        fcntl.flock(self.lockf, fcntl.LOCK_EX)
        try:
            out = os.path.join(self.dir, exe + "-" + hashlib.sha256(repr((objs, flags)).encode()).hexdigest()[:10])
            if not os.path.exists(out):
                r = subprocess.run(["g++"] + self.flags + list(objs) + [os.path.join(self.src, "default-settings.o")] + list(flags)
                                   + ["-o", out + ".tmp"] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    raise CheckError("linking %s failed:\n%s" % (exe, r.stdout[-4000:]))
                os.rename(out + ".tmp", out)
        finally:
            fcntl.flock(self.lockf, fcntl.LOCK_UN)
        return out

    def lib_jobs(self, only=None):
        return [(os.path.join(self.src, s + ".cpp"), s, []) for s in (only or self.sources())]

    def feellgood(self):
        """The real program, with the direct-sum stand-in for ScalFMM."""
        objs = self.compile(self.lib_jobs() + [(os.path.join(self.src, "main.cpp"), "main", [])])
        return self.link(objs, "feellgood")

    def feellgood_scripted(self):
        """The real program with the linear solve wrapped (see harness/wrap_solve.cpp).
        Returns (exe, wrapped?): when the wrapper does not fit the tree any more (a refactoring moved
        what it wraps), the plain program is returned and less is observed."""
        jobs = self.lib_jobs() + [(os.path.join(self.src, "main.cpp"), "main", [])]
        self.compile(jobs)
        w = self.compile([(os.path.join(VERIF, "harness", "wrap_solve.cpp"), "wrap_solve", ["-fno-access-control"])],
                         allow_fail=True)[0]
        if not w[1]:
            objs = self.compile(jobs)
            wraps = ["_ZN10LinAlgebra5solveERK6timing", "_ZNK8Settings11solMetadataB5cxx11Ed"]
            nm = subprocess.run(["nm", "-u"] + objs, stdout=subprocess.PIPE, text=True).stdout
            if wraps[0] in nm:
                return self.link(objs + [w[0]], "feellgood_scripted", ["-Wl,--wrap=" + x for x in wraps]), True
            w = (None, "no call of " + wraps[0])
        log("the wrapper does not fit this tree, observing the files only:", w[1][:500])
        return self.feellgood(), False

    def driver(self, name, sources=None, extra=()):
        """A driver of /verif/harness linked with the library sources."""
        objs = self.compile([(os.path.join(VERIF, "harness", name + ".cpp"), name, list(extra))] + self.lib_jobs(sources))
        return self.link(objs, name)


# ------------------------------------------------------------------ scratch
class Scratch:
    def __init__(self, tag):
        os.makedirs(BUILD, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix="run-" + tag + "-", dir=BUILD)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.path, ignore_errors=True)


def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or NPROC) as ex:
        return list(ex.map(f, xs))


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out
        self.deadlock = "Deadlock reached" in out
        m = re.search(r"Invariant (\S+) is violated", out) or re.search(r"Action property (\S+) is violated", out)
        self.violated = m.group(1) if m else None
        if "Temporal properties were violated" in out:
            self.violated = self.violated or "temporal"

    def last_state(self):
        i = self.out.rfind("\nState ")
        return self.out[i:i + 4000] if i >= 0 else self.out[-3000:]


def tlc(module, cfg, scratch, files=(), workers=None, timeout=800, simulate=None, extra=(), mem="6g", env=None, evaluation=()):
    """Runs TLC on spec/<module>.tla. cfg is the text of the configuration, or the name of a file of
    spec/. `files` are (name, text) written next to the copied specification (trace data)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    if cfg.endswith(".cfg") and "\n" not in cfg:
        cfg = open(os.path.join(SPEC, cfg)).read()
    open(os.path.join(d, "M.cfg"), "w").write(cfg)
    for n, t in files:
        open(os.path.join(d, n), "w").write(t)
    cmd = ["java", "-Xmx" + mem, "-Xss32m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-workers", str(workers or NPROC), "-config", "M.cfg"]
    if simulate:
        cmd += ["-simulate", simulate, "-seed", str(SEED)]
    cmd += list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    res = TlcResult(r.returncode, r.stdout)
    res.dir = d
    if not res.ok and not res.deadlock and not res.violated and not simulate \
            and "Assumption" not in r.stdout and "is false" not in r.stdout and not any(e in r.stdout for e in evaluation):
        raise CheckError("TLC failed on %s:\n%s" % (module, r.stdout[-3000:]))
    return res


def model_check(module, cfg, scratch, **kw):
    """Exhaustive check of a specification; a failure here is an error of the model, not a violation."""
    r = tlc(module, cfg, scratch, **kw)
    if not r.ok:
        raise CheckError("the specification %s does not satisfy its own properties:\n%s" % (module, r.out[-4000:]))
    return r


# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, prop, level):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov, self.assume, self.viol, self.known = {}, [], [], []
        self.findings = self._load()

    def _load(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [f for f in json.load(open(p)) if f.get("property") == self.prop and f.get("status") == "known"]

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool) and isinstance(self.cov.get(k), int):
                self.cov[k] += v
            elif isinstance(v, list) and isinstance(self.cov.get(k), list):
                self.cov[k] += v
            else:
                self.cov[k] = v

    def violation(self, what, data):
        """what: one-line description; data: JSON-able replay data."""
        for f in self.findings:
            if re.search(f["match"], what):
                if f["match"] not in [k["match"] for k in self.known]:
                    self.known.append(f)
                return
        self.viol.append((what, data))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        if self.viol:
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            json.dump([{"what": w, "data": d} for w, d in self.viol[:20]], open(rp, "w"), indent=1, default=str)
            for w, _ in self.viol[:10]:
                print("  " + w)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if not isinstance(v, (list, dict))})))
        return 0


def main(run):
    """Runs a check function; errors of the machinery exit 2."""
    try:
        rc = run()
    except CheckError as e:
        print("CHECK-ERROR: %s" % e, file=sys.stderr)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR: %s" % e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
