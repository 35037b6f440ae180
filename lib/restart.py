"""Saved configurations given back to the program (Restart.tla)."""
import json, math, os, re
import vf, feel, meshgen, meshcase, timeloop
from meshcase import TRIP, sc

CFG = """CONSTANTS
 N = 4
 MaxEdits = %d
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS RoundTrip Faithful Sizes
CHECK_DEADLOCK FALSE
"""
UNIT = 1e-12
NONE = -2000000000  # None of Restart.tla


def enumerate_files(scratch, edits):
    r = vf.model_check("RestartMC", CFG % edits, scratch)
    cs = {mm.group(1) for mm in re.finditer(r'^"CASE (.*)"$', r.out, re.M)}
    return r, [json.loads(json.loads('"' + c + '"')) for c in sorted(cs)]


def ticks(t):
    """Time in units of UNIT, or a number no time can be equal to."""
    if t is None or not math.isfinite(t):
        return -7
    k = round(t / UNIT * 1000)
    return k if abs(t / UNIT * 1000 - k) < 1e-3 else -7


def first(r, d="out", name="m"):
    ev = feel.read_evol(r.path(d, name + ".evol"))
    sol = feel.read_sol(r.path(d, name + "_iter0.sol"))
    rowt = ticks(float(ev[2][0][0])) if ev and ev[2] else -8
    return rowt, ticks(sol["time"]) if sol else -8, sol


def rows(sol, ms0, L):
    out = []
    for i, (ix, v) in enumerate(sol["rows"] if sol else []):
        ok = ix == i and len(v) >= 4
        nan = not ok or any(math.isnan(c) for c in v[:3])
        out.append({"nan": nan, "u": [0, 0, 0] if nan else [sc(c * 1e8) for c in v[:3]], "p": sc(v[3] / (ms0 * L) * 1e5) if ok else -10 ** 8})
    return out


def pick(rng):
    """A unit vector, each component either 0 or written with 8 significant digits."""
    if rng.random() < 0.3:
        return [c * 20000000 for c in rng.choice(TRIP)]
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(c * c for c in v))
        v = [c / n for c in v]
        if all(0.11 < abs(c) < 0.99 for c in v):
            return [round(c * 1e8) for c in v]


class File:
    def __init__(self, rng, f):
        self.rng, self.f = rng, f
        self.init = rng.choice([None, None, 0.0, 4e-12, 11e-12, -3e-12])
        self.perm = list(range(4))
        rng.shuffle(self.perm)
        self.eol = rng.choice(["\n", "\n", "\n"])
        self.pal = [pick(rng) for _ in range(8)]  # in units of 1e-8

    def describe(self):
        return {"file": self.f, "initial_time": self.init, "text": self.text()}

    def text(self):
        out = []
        for l in self.f:
            u = [c * 1e-8 for c in self.pal[l["v"] - 1]] if l["v"] else [0, 0, 0]
            k = l["k"]
            if k == "comment":
                out.append("# feellgood: 1.2.3 : (x) time 12")
            elif k == "blank":
                out.append("")
            elif k == "time":
                out.append("## time: %.6e" % (l["v"] * UNIT))
            elif k == "badtime":
                out.append("## time: soon")
            elif k == "row":
                out.append("%d\t%.7e\t%.7e\t%.7e\t1.5e-3" % (l["ix"], *u))
            elif k == "extra":
                out.append("%d\t%.7e\t%.7e\t%.7e\t1.5e-3\t1.0\t2.0\t3.0" % (l["ix"], *u))
            elif k == "short":
                out.append("%d\t%.7e\t%.7e" % (l["ix"], *u[:2]))
            elif k == "bad":
                out.append("%d\t%.7e\tfoo\t%.7e\t1.5e-3" % (l["ix"], u[0], u[2]))
        return "\n".join(out) + "\n"

    def trace(self, exe, d):
        os.makedirs(d)
        nodes = [(0, 0, 0), (10, 0, 0), (0, 10, 0), (0, 0, 14)]
        meshgen.Mesh([nodes[i] for i in self.perm], [("A", (0, 1, 2, 3))]).write(os.path.join(d, "mesh.msh"))
        open(os.path.join(d, "in.sol"), "w").write(self.text())
        s = {"outputs": {"directory": "out", "file_basename": "m", "evol_time_step": 1e-12, "evol_columns": ["t", "<Mx>"], "mag_config_every": 1},
             "mesh": {"filename": "mesh.msh", "volume_regions": {"A": {"Ms": 8e5}}}, "initial_magnetization": "in.sol",
             "time_integration": {"min(dt)": 1e-15, "max(dt)": 1e-12}}
        times = [l["v"] * UNIT for l in self.f if l["k"] == "time"]
        t0 = self.init if self.init is not None else times[-1] if times else 0
        if self.init is not None:
            s["initial_time"] = self.init
        s["outputs"]["final_time"] = t0
        r = feel.Run(exe, d, s, timeout=60)
        if r.rc is None:
            raise vf.CheckError("no end after 60 s")
        rowt, solt, sol = first(r)
        return {"kind": "file", "file": [dict(l, v=l["v"] * 1000 if l["k"] == "time" else l["v"]) for l in self.f], "n": 4, "rc": r.rc,
                "init": NONE if self.init is None else ticks(self.init),
                "files": bool([f for f in feel.ls(r.path("out")) if f.endswith((".sol", ".evol"))]), "rowt": rowt, "solt": solt,
                "mag": [x["u"] for x in rows(sol, 1, 1)], "pal": self.pal}


class Pair:
    """A dynamic run on a random mesh; one of its snapshots is loaded by a second run."""

    def __init__(self, rng, prop):
        self.rng = rng
        self.rows = meshcase.Rows(rng, prop, steps=3)
        self.k = rng.choice([0, 1, 3])
        self.init = rng.choice([None, None, 5e-12, -8e-12])
        self.binary = False

    def describe(self):
        return dict(self.rows.describe(), snapshot=self.k, initial_time=self.init)

    def trace(self, exe, d):
        c = self.rows.case
        os.makedirs(d)
        c.write_mesh(os.path.join(d, "mesh.msh"))
        s = self.rows.settings()
        s["outputs"]["evol_columns"] = ["t"]
        feel.Run(exe, d, s, timeout=120)
        k = self.k
        while k > 0 and not os.path.exists(os.path.join(d, "out", "m_iter%d.sol" % k)):
            k -= 1
        src = feel.read_sol(os.path.join(d, "out", "m_iter%d.sol" % k))
        s["initial_magnetization"] = "out/m_iter%d.sol" % k
        s["outputs"].update({"directory": "again", "evol_columns": ["t"]})
        s.pop("initial_time", None)
        t0 = src["time"]
        if self.init is not None:
            s["initial_time"] = t0 = self.init
        s["outputs"]["final_time"] = t0
        # the order of the regions and the surfaces does not matter to the nodes
        v = list(s["mesh"]["volume_regions"].items())
        self.rng.shuffle(v)
        s["mesh"]["volume_regions"] = dict(v)
        r = feel.Run(exe, d, s, timeout=60, name="again.yml")
        rowt, solt, sol = first(r, "again")
        a, b = rows(src, c.ms0, c.L), rows(sol, c.ms0, c.L)
        return {"kind": "pair", "rc": r.rc, "saved": a, "mag": b, "init": NONE if self.init is None else ticks(self.init), "filet": ticks(t0) if self.init is None else 0,
                "rowt": rowt, "solt": solt, "ptol": 5}


class Plain:
    def __init__(self, rng):
        self.rng = rng
        self.init = rng.choice([None, 0.0, 3e-12, 1e-9, 2.5e-11, -1e-12, -4e-10])

    def describe(self):
        return {"initial_time": self.init}

    def trace(self, exe, d):
        os.makedirs(d)
        meshgen.box((1, 1, 1)).write(os.path.join(d, "mesh.msh"))
        s = {"outputs": {"directory": "out", "file_basename": "m", "evol_time_step": 1e-12, "evol_columns": ["t", "<Mx>"], "mag_config_every": 1, "final_time": self.init or 0.0},
             "mesh": {"filename": "mesh.msh", "volume_regions": {"A": {"Ms": 8e5}}}, "initial_magnetization": [1, 0, 0],
             "time_integration": {"min(dt)": 1e-15, "max(dt)": 1e-12}}
        if self.init is not None or self.rng.random() < 0.5:
            s["initial_time"] = self.init
        r = feel.Run(exe, d, s, timeout=60)
        rowt, solt, sol = first(r)
        return {"kind": "plain", "rc": r.rc, "init": NONE if self.init is None else ticks(self.init), "rowt": rowt, "solt": solt}


class Resume:
    def __init__(self, rng):
        self.rng = rng
        self.steps = rng.choice([4, 6, 9])
        self.at = rng.randint(1, self.steps - 1)
        self.signal = False
        self.w = rng.choice([2e11, 1e12])
        self.n = rng.choice([(1, 1, 1), (2, 1, 1), (1, 1, 3)])
        self.m0 = list(rng.choice(TRIP))
        self.t0 = rng.choice([0.0, 0.0, 8e-12, -3e-12])
        self.ratio = rng.choice([20, 50])
        self.given = rng.random() < 0.3

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k != "rng"}

    def trace(self, exe, d):
        os.makedirs(d)
        step = 1e-12
        meshgen.box(self.n, tuple(8.0 * x for x in self.n)).write(os.path.join(d, "mesh.msh"))
        s = {"outputs": {"directory": "a", "file_basename": "m", "evol_time_step": step, "evol_columns": ["t", "<Mx>", "<My>", "<Mz>"], "mag_config_every": 1,
                         "final_time": self.t0 + self.steps * step},
             "mesh": {"filename": "mesh.msh", "volume_regions": {"A": {"Ms": 8e5, "Ae": 1e-11, "alpha_LLG": 0.3}}}, "initial_magnetization": [float(x) for x in self.m0],
             "Bext": ["0.4*Math.cos(%r*t)" % self.w, "0.3*Math.sin(%r*t)" % self.w, "0.2"],
             "time_integration": {"min(dt)": 1e-16, "max(dt)": step / self.ratio, "max(du)": 0.05}}
        if self.t0:
            s["initial_time"] = self.t0
        r1 = feel.Run(exe, d, s, timeout=120)
        s["initial_magnetization"] = "a/m_iter%d.sol" % self.at
        s.pop("initial_time", None)
        if self.given:
            s["initial_time"] = self.t0 + self.at * step
        s["outputs"]["directory"] = "b"
        r2 = feel.Run(exe, d, s, timeout=120, name="b.yml")
        a, b = feel.read_evol(r1.path("a", "m.evol")), feel.read_evol(r2.path("b", "m.evol"))

        def conv(e, n):
            return [{"t": ticks(float(x[0])), "m": [sc(1e6 * float(c)) for c in x[1:]]} for x in (e[2] if e else [])[n:]]
        return {"kind": "resume", "first": conv(a, self.at), "second": conv(b, 0), "mtol": 3000, "rc": r2.rc}


def campaign(runs, exe, scratch, ck, labels):
    d = os.path.join(scratch, "restart")
    os.makedirs(d)
    import shutil

    def one(a):
        w = os.path.join(d, str(a[0]))
        t = a[1].trace(exe, w)
        shutil.rmtree(w, ignore_errors=True)
        return t
    tr = vf.pmap(one, list(enumerate(runs)))
    bad, r = timeloop.validate(tr, scratch, "RestartTrace", timeout=800)
    for c, t, b in zip(runs, tr, bad):
        b = sorted(x for x in b if x.startswith(labels))
        if b:
            ck.violation(", ".join(b), {"case": c.describe(), "trace": t})
    kinds = {}
    for t in tr:
        kinds["runs_" + t["kind"]] = kinds.get("runs_" + t["kind"], 0) + 1
    ck.add(trace_states=r.distinct, loaded=sum(1 for t in tr if t["kind"] == "file" and t["rc"] == 0), **kinds)
    return tr, bad
