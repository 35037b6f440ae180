"""Motion of the magnetization in the real program, compared with Llg.tla by TLC (LlgTrace)."""
import copy, json, math, os, shutil
import vf, feel, meshcase, meshgen, timeloop
from meshcase import TRIP, sc
from symmetry import parse

MU0 = 1.25663706127e-6
GAMMA0 = 1.76085962784e11 * MU0
CFG = """CONSTANTS
 Depth = %d
SPECIFICATION Spec
INVARIANTS GradExchange GradAniso GradZeeman TangentInv ExchangeSum
CHECK_DEADLOCK FALSE
"""


def explore(scratch, depth):
    return vf.model_check("LlgMC", CFG % depth, scratch)


class Step:
    TERMS = ["zeeman", "uniaxial", "cubic", "exchange", "surface", "demag"]

    def __init__(self, rng, terms=None):
        self.rng = rng
        self.terms = terms or [t for t in self.TERMS if rng.random() < 0.6] or ["zeeman"]
        T = self.terms
        while True:
            c = self.case = meshcase.random_case(rng, "C29", rules=["const"] if "cubic" in T or rng.random() < 0.1 else ["mod", "regions"])
            if "surface" not in T or c.m["surfs"] or c.m["dsurf"]["ks"]:
                break
        m = c.m
        for v in m["vols"]:
            v["ms"] = 1 if v["ms"] else 0
            v["ae"] = v["ae"] if "exchange" in T else 0
            v["k"] = v["k"] or rng.choice([1, -2]) if "uniaxial" in T else 0
            v["k3"] = v["k3"] or rng.choice([1, -2]) if "cubic" in T else 0
        for s in m["surfs"] + [m["dsurf"]]:
            s["sup"] = False
            s["ks"] = (s["ks"] or rng.choice([0, 1, -1])) if "surface" in T else 0
        if "surface" in T:
            self.tame()
        c.field = {"k": "uniform", "b": [rng.randint(-4, 4) for _ in range(3)] if "zeeman" in T else [0, 0, 0]}
        c.L = rng.choice([1e-9, 5e-9, 2e-8])
        self.h0 = rng.choice([1e4, 1e5])
        ratio = rng.choice([1, 5, 20]) if "demag" in T else 1e-4
        Ms = self.h0 * ratio
        c.ms0, c.k0, c.b0 = Ms, MU0 * Ms * self.h0 / 2, MU0 * self.h0
        c.a0 = MU0 * Ms * self.h0 * c.L ** 2 / 2
        c.t0 = 0
        self.alpha = {v["n"]: rng.choice([1, 3, 5, 10, 20]) for v in m["vols"]}
        self.q = 2e-3 / (max(v["ae"] for v in m["vols"]) * 24 + 10 + (12 if "surface" in T else 0) + (ratio if "demag" in T else 0))
        self.sp = rng.random() < 0.3
        # with the field alone, it may appear after some steps at rest
        self.rest = rng.choice([0, 1, 4]) if T == ["zeeman"] else 0

    def tame(self):
        """Surface anisotropy only where all the tetrahedra of the face are magnetic or absent, with an area along an axis."""
        m = self.case.m
        known = {v["n"]: v["ms"] for v in m["vols"]}
        faces = meshgen.Mesh(m["nodes"], [(t["r"], tuple(i - 1 for i in t["q"])) for t in m["tets"] if t["r"] in known]).faces()
        magn = {i for t in m["tets"] if known.get(t["r"]) for i in t["q"]}

        def good(f):
            own = [m["tets"][0] for _ in ()]
            p = [m["nodes"][i] for i in f]
            a, b = [[x - y for x, y in zip(p[k], p[0])] for k in (1, 2)]
            cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            return sum(1 for x in cr if x) == 1
        tets = [t for t in m["tets"] if t["r"] in known]
        for f, l in faces.items():
            own = [tets[n] for n, _ in l]
            edge = len(own) == 1 or own[0]["r"] != own[1]["r"]
            if not edge:
                continue
            ok = good(f) and any(known[t["r"]] for t in own)
            cov = [t for t in m["tris"] if sorted(i - 1 for i in t["q"]) == list(f) and any(s["n"] == t["r"] for s in m["surfs"])]
            if not ok and all(i + 1 in magn for i in f):
                for s in ([s for s in m["surfs"] if cov and s["n"] == cov[0]["r"]] or [m["dsurf"]]):
                    s["ks"] = 0

    def describe(self):
        return dict(self.case.describe(), terms=self.terms, alpha=self.alpha, h0=self.h0, q=self.q)

    def want(self):
        """The initial magnetization of the rule, in fifths (as in MeshTrace)."""
        c = self.case
        r, m = c.rule, c.m
        out = []
        known = {v["n"] for v in m["vols"]}
        for i, p in enumerate(m["nodes"]):
            s = sum(x * y for x, y in zip(r["a"], p))
            if r["k"] == "const":
                k = 0
            elif r["k"] == "mod":
                k = s + r["d"]
            else:
                regs = {t["r"] for t in m["tets"] if t["r"] in known and i + 1 in t["q"]}
                k = r["d"] * s + sum(2 ** r["names"].index(x) for x in regs)
            out.append(r["pal"][k % len(r["pal"])])
        return out

    def trace(self, exe, d):
        c = self.case
        os.makedirs(d)
        c.write_mesh(os.path.join(d, "mesh.msh"))
        c.columns = ["t", "dt"]
        s = c.settings()
        dt = self.q / (GAMMA0 * self.h0)
        s["outputs"].update({"evol_time_step": dt, "final_time": dt * (self.rest + 1)})
        for n, v in s["mesh"]["volume_regions"].items():
            v["alpha_LLG"] = self.alpha[n] / 10.0
        s["time_integration"] = {"min(dt)": dt, "max(dt)": dt, "max(du)": 0.5}
        s["finite_element_solver"] = {"nb_threads": 1, "tolerance": 1e-10, "max(iter)": 2000}
        b = [x * c.b0 for x in c.field["b"]]
        if self.sp:
            s["Bext"] = {"space": "function(x,y,z) { return %s; }" % json.dumps(b), "time": "function(t) { return %s; }" % ("t > %r ? 1 : 0" % ((self.rest - 0.25) * dt) if self.rest else "1")}
        elif self.rest:
            s["Bext"] = "function(t) { return t > %r ? %s : [0,0,0]; }" % ((self.rest - 0.25) * dt, json.dumps(b))
        r = feel.Run(exe, d, s, timeout=120)
        a, z = [feel.read_sol(r.path("out", "m_iter%d.sol" % k)) for k in (self.rest, self.rest + 1)]
        u = self.want()
        w, p = [], []
        self.out = {"rc": r.rc, "err": r.err[-300:]}
        if a and z:
            for (_, x), (_, y), u5 in zip(a["rows"], z["rows"], u):
                p.append(sc(x[3] / (self.h0 * c.L) * 1000) if math.isfinite(x[3]) else 0)
                if any(math.isnan(k) for k in y[:3]):
                    w.append([0, 0, 0])
                    continue
                u0 = [k / 5.0 for k in u5]
                dot = sum(i * j for i, j in zip(u0, y))
                w.append([sc((i / dot - j) / self.q * 1000) for i, j in zip(y, u0)])
        return {"kind": "step", "m": c.m, "rc": 99 if r.rc is None else r.rc, "u": u, "p": p, "b": c.field["b"], "a": [self.alpha.get(t["r"], 0) for t in c.m["tets"]],
                "w": w, "noise": int(2e-8 / self.q * 1000) + (1 if "demag" in self.terms else 0), "rel": 200}


class Later(Step):
    """The same systems followed for a longer time."""

    def settings(self, d, dt, n, h, out):
        c = self.case
        c.columns = ["t", "dt", "E_tot", "E_ex", "E_aniso", "E_zeeman", "E_demag"]
        s = c.settings()
        s["Bext"] = [x * c.b0 for x in c.field["b"]]
        s["outputs"].update({"directory": out, "evol_time_step": dt, "final_time": dt * n})
        for k, v in s["mesh"]["volume_regions"].items():
            v["alpha_LLG"] = self.alpha[k] / 10.0
        s["time_integration"] = {"min(dt)": dt, "max(dt)": h, "max(du)": 0.9}
        s["finite_element_solver"] = {"nb_threads": 1, "tolerance": 1e-10, "max(iter)": 2000}
        return s


class Time(Later):
    """Time steps h, h/2, h/4 to the same final time."""
    N = 10
    RATIO, FLOOR = 70, 1000

    def __init__(self, rng, terms=None):
        Step.__init__(self, rng, terms)
        self.angle = rng.choice([0.3, 0.8])

    def trace(self, exe, d):
        c = self.case
        os.makedirs(d)
        c.write_mesh(os.path.join(d, "mesh.msh"))
        T = self.q / 2e-3 * self.angle / (GAMMA0 * self.h0)
        rc, out = 0, []
        self.out = {}
        for f in (1, 2, 4):
            s = self.settings(d, T / (self.N * f), self.N * f, T / self.N, "o%d" % f)
            r = feel.Run(exe, d, s, timeout=300)
            rc = rc or (99 if r.rc is None else r.rc)
            z = feel.read_sol(r.path("o%d" % f, "m_iter%d.sol" % (self.N * f)))
            out.append([[sc(x * 1e7) if math.isfinite(x) else 0 for x in v[:3]] for _, v in z["rows"]] if z else [])
            if r.rc:
                self.out[f] = (r.err[-200:], r.out[-3300:])
        return {"kind": "time", "rc": rc, "h": out[0], "h2": out[1], "h4": out[2], "ratio": self.RATIO, "floor": self.FLOOR, "bound": 300000}


class Macrospin(Time):
    """A uniform magnetization in uniform materials: the scheme is of second order."""
    RATIO, FLOOR = 33, 30

    def __init__(self, rng, terms=None):
        Step.__init__(self, rng, ["zeeman", "uniaxial"] if rng.random() < 0.7 else ["zeeman"])
        v = self.case.m["vols"]
        for x in v:
            x.update(ms=1, k=v[0]["k"], uk=v[0]["uk"])
        a = rng.choice([5, 10, 20])   # below, the stabilization of the scheme acts
        self.alpha = {x["n"]: a for x in v}
        self.case.rule = dict(self.case.rule, k="const", pal=self.case.rule["pal"][:1])
        self.angle = rng.choice([1.0, 2.0])


class Decay(Later):
    """A few steps in a constant field: energy and motion."""

    def __init__(self, rng, terms=None):
        Step.__init__(self, rng, terms)
        self.rate = "demag" not in self.terms   # the discrete demagnetizing field is not the exact gradient of its energy

    def trace(self, exe, d):
        c = self.case
        os.makedirs(d)
        c.write_mesh(os.path.join(d, "mesh.msh"))
        q = self.q * 10
        dt = q / (GAMMA0 * self.h0)
        r = feel.Run(exe, d, self.settings(d, dt, 6, dt, "out"), timeout=120)
        ev = feel.read_evol(r.path("out", "m.evol"))
        self.out = {"rc": r.rc, "err": r.err[-200:], "rows": ev[2] if ev else None}
        m = c.m
        known = {v["n"]: v["ms"] for v in m["vols"]}
        rows = [[parse(x) for x in row] for row in ev[2]] if ev else []
        sols = [feel.read_sol(r.path("out", "m_iter%d.sol" % k)) for k in range(len(rows))]
        ws = []
        for a, b in zip(sols, sols[1:]):
            w = []
            for (_, x), (_, y) in zip(a["rows"], b["rows"]):
                if any(math.isnan(k) for k in y[:3]):
                    w.append([0, 0, 0])
                    continue
                dot = sum(i * j for i, j in zip(x, y[:3]))
                w.append([(i / dot - j) for i, j in zip(y[:3], x)])
            ws.append(w)
        big = max([abs(x) for w in ws for v in w for x in v] + [q / 20])
        k = 60 / big     # the motion in 60 parts
        unit = MU0 * c.ms0 * self.h0 * c.L ** 3
        # E / unit = sum of Alpha10 / 240 * w^2 / q
        f = 240 * q * k * k / unit
        e0 = rows[0][2] if rows else 0
        return {"kind": "decay", "m": m, "rc": 99 if r.rc is None else r.rc, "a": [self.alpha.get(t["r"], 0) for t in m["tets"]],
                "e": [sc((x[2] - e0) * f) for x in rows], "w": [[[sc(x * k) for x in v] for v in w] for w in ws] if self.rate else [],
                "check": self.rate, "rel": 10, "slack": 3000}


def campaign(runs, exe, scratch, ck, labels):
    d = os.path.join(scratch, "llg")
    os.makedirs(d)

    def one(a):
        w = os.path.join(d, str(a[0]))
        t = a[1].trace(exe, w)
        shutil.rmtree(w, ignore_errors=True)
        return t
    tr = vf.pmap(one, list(enumerate(runs)))
    bad, r = timeloop.validate(tr, scratch, "LlgTrace", timeout=800)
    for c, t, b in zip(runs, tr, bad):
        b = sorted(x for x in b if x.startswith(labels))
        if b:
            ck.violation(", ".join(b), {"case": c.describe(), "trace": t, "output": c.out})
    kinds = {}
    for t in tr:
        kinds["runs_" + t["kind"]] = kinds.get("runs_" + t["kind"], 0) + 1
    ck.add(trace_states=r.distinct, **kinds)
    return tr, bad
