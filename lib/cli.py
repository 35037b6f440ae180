"""The command line of the real program, compared with Cli.tla by TLC (CliTrace)."""
import itertools, os, shutil, subprocess
import vf, feel, meshgen, timeloop

CFG = """CONSTANTS
 Depth = %d
SPECIFICATION Spec
INVARIANTS Agrees Harmless Last
CHECK_DEADLOCK FALSE
"""
WORDS = ["-h", "--help", "-V", "--version", "--print-defaults", "--print-template", "--verify", "-v", "--verbose", "--seed", "7", "s.yml", "-", "--other", "nofile.yml"]


def explore(scratch, depth):
    return vf.model_check("CliMC", CFG % depth, scratch)


def settings(rows, directory="out", dt=1e-12, tol=1e-3):
    s = {"outputs": {"directory": directory, "file_basename": "m", "evol_time_step": dt, "evol_columns": ["t", "<Mx>", "<My>", "<Mz>", "E_tot"], "mag_config_every": 1},
         "mesh": {"filename": "mesh.msh", "length_unit": 1e-9, "volume_regions": {"A": {"Ae": 1e-11, "Ms": 8e5, "alpha_LLG": 0.3}}, "surface_regions": {}},
         "initial_magnetization": ["1", "x/1e-8", "0.3+y/2e-8"], "Bext": [0.1, 0.3, 0.7],
         "time_integration": {"min(dt)": 1e-18, "max(dt)": dt, "max(du)": 0.1},
         "finite_element_solver": {"nb_threads": 1, "tolerance": tol, "max(iter)": 500}, "demagnetizing_field_solver": {"nb_threads": 1}}
    if rows:
        s["outputs"]["final_time"] = rows * dt
    return s


def mesh(path):
    meshgen.box((2, 1, 1), (4., 3., 2.)).write(path)


class Line:
    """A command line in a world."""

    def __init__(self, rng, args=None):
        if args is None:
            run = rng.random() < 0.6
            args = [rng.choice(["-v", "--verbose", "--verify"] if run else WORDS[:10]) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            if rng.random() < 0.4:
                args += ["--seed", rng.choice(["7", "123", "s.yml", "-h"])]
            args += [rng.choice(["s.yml"] * 6 + ["-"] * 3 + ["nofile.yml"] + (["7", "--other"] if not run else []))]
            if not run and rng.random() < 0.3:
                args += [rng.choice(WORDS)]
        self.args = list(args)
        kinds = ["good"] * 5 + ["bad", "none"]
        w = self.w = {"stdin": rng.choice(kinds), "file": rng.choice(kinds), "dir": rng.choice(["absent"] * 4 + ["dir", "dir", "file", "orphan"]),
                      "rows": rng.choice([0, 1, 2, 3]), "xdgset": rng.random() < 0.5, "xdg": rng.choice([0, 1, 2]), "home": rng.choice([0, 1, 3])}
        if not w["rows"] and not (w["xdg"] if w["xdgset"] else w["home"]):
            w["rows"] = 2
        self.bad = rng.choice(["outputs: [", "Bext: [1, 2]\n", "mesh: {length_unit: x}\n", "initial_magnetization: [0, 0]\n"])
        self.none = rng.choice(["", "# nothing\n", "---\n", None])
        self.empty = rng.random() < 0.5   # XDG_CONFIG_HOME set but empty is as not set

    def describe(self):
        return {"args": self.args, "world": self.w, "bad": self.bad, "none": self.none}

    def text(self, kind):
        if kind == "good":
            return feel.yaml(settings(self.w["rows"], "sub/out" if self.w["dir"] == "orphan" else "out"))
        if kind == "bad":
            s = feel.yaml(settings(self.w["rows"]))
            k = self.bad.split(":")[0]
            d = settings(self.w["rows"])
            d.pop(k, None)
            return self.bad if self.bad.endswith("[") else feel.yaml(d)[:-1].rstrip() + ",\n\"%s\":%s}\n" % (k, self.bad.split(":", 1)[1].strip())
        return self.none or ""

    def trace(self, exe, d):
        os.makedirs(d)
        w = self.w
        mesh(os.path.join(d, "mesh.msh"))
        if not (w["file"] == "none" and self.none is None):
            open(os.path.join(d, "s.yml"), "w").write(self.text(w["file"]))
        env = {"PATH": os.environ.get("PATH", ""), "HOME": os.path.join(d, "home"), "LC_ALL": "C", "OMP_NUM_THREADS": "2"}
        os.makedirs(env["HOME"])
        if w["xdgset"]:
            env["XDG_CONFIG_HOME"] = os.path.join(d, "xdg")
        elif self.empty:
            env["XDG_CONFIG_HOME"] = ""
        for n, p in ((w["xdg"], "xdg"), (w["home"], "home/.config")):
            if n:
                os.makedirs(os.path.join(d, p, "feellgood"))
                open(os.path.join(d, p, "feellgood", "default.yml"), "w").write("outputs: {final_time: %r}\n" % (n * 1e-12))
        out = os.path.join(d, "out")
        if w["dir"] == "dir":
            os.makedirs(out)
            open(os.path.join(out, "kept"), "w").write("kept\n")
        elif w["dir"] == "file":
            open(out, "w").write("kept\n")
        before = snapshot(d)
        try:
            r = subprocess.run([exe] + self.args, cwd=d, env=env, timeout=60, stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=self.text(w["stdin"]), text=True, errors="replace")
            rc, so, se = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            rc, so, se = 99, "", "timeout"
        after = snapshot(d)
        ev = feel.read_evol(os.path.join(out, "m.evol"))
        said = "help" if "Usage" in so and "--verify" in so else "version" if so.startswith("feeLLGood") else "other"
        if "\noutputs:" in "\n" + so:
            said = "settings" if "mesh.msh" in so else "defaults" if "#" in so else "template"
        mine = lambda p: p.startswith("out/m") or p == "out" or ".fltk" in p   # .fltk: of the gmsh library
        self.out = {"rc": rc, "stdout": so[-500:], "stderr": se[-300:]}
        return {"kind": "cli", "args": self.args, "w": w,
                "o": {"rc": rc, "made": os.path.isdir(out) and w["dir"] != "dir" or os.path.isdir(os.path.join(d, "sub")), "rows": len(ev[2]) if ev else 0,
                      "kept": {k: v for k, v in after.items() if not mine(k) or k in before} == before, "said": said, "err": bool(se.strip() or so.strip())}}


def snapshot(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in ds:
            out[os.path.relpath(os.path.join(p, f), d)] = "dir"
        for f in fs:
            out[os.path.relpath(os.path.join(p, f), d)] = open(os.path.join(p, f), errors="replace").read()
    return out


class Twice:
    """The same simulation twice, asked for in other ways, with the same or another random seed: it is the same."""

    def __init__(self, rng):
        self.rng = rng
        self.same = rng.random() < 0.7
        self.seed = str(rng.randrange(1, 2 ** 31))
        self.ways = [rng.choice([[], ["-v"], ["--verbose"]]) for _ in range(2)]
        self.stdin = [rng.random() < 0.3, rng.random() < 0.3]
        self.rows = rng.randint(3, 6)
        self.tol = 1e-3 if self.same else 1e-9

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k != "rng"}

    def trace(self, exe, d):
        got = []
        for k in range(2):
            e = os.path.join(d, str(k))
            os.makedirs(e)
            mesh(os.path.join(e, "mesh.msh"))
            t = feel.yaml(settings(self.rows, tol=self.tol))
            seed = self.seed if self.same or k == 0 else str(int(self.seed) + 1)
            args = self.ways[k] + ["--seed", seed]
            if k and self.rng.random() < 0.5:
                args = ["--seed", seed] + self.ways[k]
            run_in(exe, e, args, t, self.stdin[k])
            ev = feel.read_evol(os.path.join(e, "out", "m.evol"))
            sols = [feel.read_sol(os.path.join(e, "out", "m_iter%d.sol" % j)) for j in range(self.rows + 1)]
            got.append((ev[2] if ev else [], [s["rows"] if s else [] for s in sols]))
        a, b = got
        rows = [[float(v) for r in x[0] for v in r] for x in (a, b)]
        near = len(rows[0]) == len(rows[1]) and all(abs(p - q) <= 1e-6 * abs(p) for p, q in zip(*rows))
        va, vb = [[v for r in x[1] for _, w in r for v in w[:3]] for x in (a, b)]
        close = len(va) == len(vb) and all(abs(p - q) <= 1e-5 for p, q in zip(va, vb))
        self.out = {"rows": [len(a[0]), len(b[0])]}
        return {"kind": "twice", "same": self.same, "equal": near and len(va) == len(vb) and all(abs(p - q) <= 1e-6 for p, q in zip(va, vb)), "close": close or self.same, "complete": len(a[0]) == self.rows + 1 == len(b[0]) and all(a[1]) and all(b[1])}


def run_in(exe, e, args, text, stdin):
    open(os.path.join(e, "s.yml"), "w").write(text)
    env = {"PATH": os.environ.get("PATH", ""), "HOME": e, "XDG_CONFIG_HOME": os.path.join(e, "xdg"), "OMP_NUM_THREADS": "2", "LC_ALL": "C"}
    return subprocess.run([exe] + args + ["-" if stdin else "s.yml"], cwd=e, env=env, timeout=60, stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=text if stdin else None, text=True)


def enumerated(depth):
    for n in range(depth + 1):
        for a in itertools.product(WORDS, repeat=n):
            yield list(a)


def campaign(runs, exe, scratch, ck, labels):
    d = os.path.join(scratch, "cl")
    os.makedirs(d)

    def one(a):
        w = os.path.join(d, str(a[0]))
        t = a[1].trace(exe, w)
        shutil.rmtree(w, ignore_errors=True)
        return t
    tr = vf.pmap(one, list(enumerate(runs)))
    bad, r = timeloop.validate(tr, scratch, "CliTrace", timeout=800)
    for c, t, b in zip(runs, tr, bad):
        b = sorted(x for x in b if x.startswith(labels))
        if b:
            ck.violation(", ".join(b), {"case": c.describe(), "trace": t, "output": c.out})
    ck.add(trace_states=r.distinct, command_lines=sum(1 for t in tr if t["kind"] == "cli"), simulations=sum(1 for t in tr if t["kind"] == "cli" and t["o"]["rows"]),
           repeated=sum(1 for t in tr if t["kind"] == "twice"))
    return tr, bad
