"""Currents and spin accumulation in the real program, compared with Transport.tla by TLC (TransportTrace)."""
import copy, json, math, os, shutil
import vf, feel, meshcase, meshgen, timeloop
from meshcase import TRIP, sc
from llg import MU0, GAMMA0

E = 1.602176634e-19
HBAR, ME = 1.054571817e-34, 9.1093837139e-31
MUB = E * HBAR / (2 * ME)
NOVAL = 1000000
CFG = """CONSTANTS
 Depth = %d
SPECIFICATION Spec
INVARIANTS Conserved Positive Uniform Symmetric Precession Tangential
CHECK_DEADLOCK FALSE
"""


def explore(scratch, depth):
    return vf.model_check("TransportMC", CFG % depth, scratch)


class Case:
    def __init__(self, rng, wrong=False, steps=1):
        self.rng, self.steps = rng, steps
        ax = rng.randrange(3)
        n = [rng.choice([1, 1, 2]) for _ in range(3)]
        n[ax] = rng.randint(2, 3)
        l = [rng.choice([1, 2]) for _ in range(3)]
        org = [rng.choice([0, 5, -20]) for _ in range(3)]
        names = rng.sample(["A", "B", "Cu", "free layer", "1"], rng.choice([1, 2, 2, 3]))
        layered = rng.random() < 0.5
        reg = {}

        def region(x, y, z):
            c = tuple((x, y, z))
            k = c[ax] if layered else c
            if k not in reg:
                reg[k] = names[len(reg)] if len(reg) < len(names) else rng.choice(names)
            return reg[k]
        b = meshgen.box(n, [float(a * m) for a, m in zip(n, l)], [float(o) for o in org], region)
        nodes = [[int(round(c)) for c in p] for p in b.nodes]
        used = {r for r, _ in b.tets}
        names = [x for x in names if x in used]
        lo, hi = org[ax], org[ax] + n[ax] * l[ax]
        if rng.random() < 0.5:
            lo, hi = hi, lo
        faces = b.boundary()
        def on(c):
            return [list(f) for f in faces if all(nodes[i][ax] == c for i in f)]
        fj, fv = on(lo), on(hi)
        if rng.random() < 0.4:
            fj = rng.sample(fj, max(1, len(fj) - 1))
        if rng.random() < 0.4:
            fv = rng.sample(fv, max(1, len(fv) - 1))
        one = rng.random() < 0.6   # potential and spin accumulation given on the same surface
        J = {"n": "inj", "jn": rng.choice([1, -1, 2, -3]), "v": NOVAL, "sv": [], "up": list(rng.choice(TRIP))}
        V = {"n": "gnd", "jn": NOVAL, "v": rng.choice([0, 0, 1, -4]), "sv": [0, 0, 0] if one else [], "up": [0, 0, 5]}
        surfs, tris = [J, V], [("inj", f) for f in fj] + [("gnd", f) for f in fv]
        if one and rng.random() < 0.5:
            V["sv"] = [rng.randint(-2, 2) for _ in range(3)]
        if not one:
            side = [list(f) for f in faces if list(f) not in fj and list(f) not in fv and not any(i in sum(fj, []) for i in f)]
            if side:
                S = {"n": "sink", "jn": NOVAL, "v": NOVAL, "sv": [rng.randint(-1, 2) for _ in range(3)], "up": [0, 0, 5]}
                surfs.append(S)
                tris += [("sink", f) for f in rng.sample(side, min(2, len(side)))]
            else:
                V["sv"] = [0, 0, 0]
        for s in surfs:
            s.update(sup=False, ks=0, uk=[0, 0, 5])
        vols = []
        for x in names:
            ms = rng.choice([1, 2]) if rng.random() < 0.7 or x == names[-1] and not any(v["ms"] for v in vols) else 0
            vols.append({"n": x, "ms": ms, "ae": 0, "k": 0, "uk": [0, 0, 5], "k3": 0, "sg": rng.choice([1, 2, 3]), "df": rng.choice([1, 2]), "fi": rng.choice([0, 1, 2]),
                         "gi": rng.choice([1, 2]), "p": rng.choice([0, 1, 2, 3])})
        if wrong:
            k = rng.choice(["twoj", "noj", "twov", "nov", "nos", "twos", "n0", "p"])
            self.wrong = k
            x = copy.deepcopy(J if k == "twoj" else V)
            if k in ("twoj", "twov", "twos"):
                left = [list(f) for f in faces if list(f) not in [t[1] for t in tris]]
                tris.append(("extra", left[0]))
                surfs.append(dict(x, n="extra", jn=J["jn"] if k == "twoj" else NOVAL, v=0 if k == "twov" else NOVAL, sv=[0, 0, 0] if k == "twos" else []))
            for s in surfs:
                if k == "noj":
                    s["jn"] = NOVAL
                if k == "nov":
                    s["v"] = NOVAL
                if k == "nos":
                    s["sv"] = []
            if k == "n0":
                vols[0]["df"] = 0
            if k == "p":
                vols[0]["p"] = rng.choice([4, 5, -1])
        flip = lambda f: f if rng.random() < 0.5 else [f[0], f[2], f[1]]
        perm = list(range(len(nodes)))
        rng.shuffle(perm)
        nn = [None] * len(nodes)
        for i, p in enumerate(nodes):
            nn[perm[i]] = p
        self.m = {"nodes": nn, "tets": [{"r": r, "q": [perm[i] + 1 for i in q]} for r, q in b.tets], "tris": [{"r": r, "q": [perm[i] + 1 for i in flip(f)]} for r, f in tris],
                  "vols": vols, "surfs": surfs, "dsurf": copy.deepcopy(meshcase.DSURF)}
        rng.shuffle(self.m["tets"])
        rng.shuffle(self.m["tris"])
        self.L = rng.choice([1e-9, 4e-9])
        self.h0 = rng.choice([1e4, 1e5])
        # Ms = j0 muB / (e gamma0 h0 L) is small: no demagnetizing field
        self.j0, self.s0 = 1e-4 * self.h0 ** 2 * GAMMA0 * self.L * E / MUB, rng.choice([1e6, 7e6, 0.02, 3e3])
        self.b = [rng.randint(-3, 3) for _ in range(3)] if rng.random() < 0.5 else [0, 0, 0]
        self.alpha = {v["n"]: rng.choice([1, 3, 5, 10]) for v in vols}
        self.pal = [list(rng.choice(TRIP)) for _ in range(rng.choice([1, 3, 5]))]
        self.q = 1e-4 if steps == 1 else rng.choice([0.03, 0.1, 0.3])

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k != "rng"}

    def settings(self):
        m, L = self.m, self.L
        Ms = 1e-4 * self.h0
        sj = self.j0 * MUB / E
        D1 = L   # 1 m/s: the source term is of the order of the others
        vols = {}
        for v in m["vols"]:
            sg = v["sg"] * self.s0
            vols[v["n"]] = {"Ms": v["ms"] * Ms, "Ae": 0, "alpha_LLG": self.alpha[v["n"]] / 10.0, "sigma": sg, "dens_state": 2 * sg / (E * E * v["df"] * D1) if v["df"] else 0,
                            "P": v["p"] / 4.0, "l_sf": L / math.sqrt(v["fi"]) if v["fi"] else 1e3 * L, "l_sd": L / math.sqrt(v["gi"])}
        surfs = {}
        for s in m["surfs"]:
            d = surfs[s["n"]] = {}
            if s["jn"] != NOVAL:
                d["jn"] = s["jn"] * self.j0
                d["uP"] = [c / 5.0 for c in s["up"]]
            if s["v"] != NOVAL:
                d["V"] = s["v"] * self.j0 * L / self.s0
            if s["sv"]:
                d["s"] = [c * sj for c in s["sv"]]
        pal = json.dumps(self.pal)
        dt = self.q / (GAMMA0 * self.h0)
        return {"outputs": {"directory": "out", "file_basename": "m", "evol_time_step": dt, "final_time": dt * self.steps, "evol_columns": ["t"], "mag_config_every": 1},
                "mesh": {"filename": "mesh.msh", "length_unit": L, "volume_regions": vols, "surface_regions": surfs},
                "initial_magnetization": "function(x,y,z) { var p = %s, i = Math.round((x + 2*y + 5*z)/%r), n = p.length; return p[((i %% n) + n) %% n]; }" % (pal, L),
                "Bext": [x * MU0 * self.h0 for x in self.b], "spin_accumulation": {"enable": True, "V_file": True},
                "time_integration": {"min(dt)": dt * (1 if self.steps == 1 else 1e-3), "max(dt)": dt, "max(du)": 0.9},
                "finite_element_solver": {"nb_threads": 1, "tolerance": 1e-10, "max(iter)": 2000}, "demagnetizing_field_solver": {"nb_threads": 1}}

    def lc(self):
        l = 1
        for t in self.m["tets"]:
            d = abs(meshcase.det6(self.m["nodes"], [i - 1 for i in t["q"]]))
            l = l * d // math.gcd(l, d)
        return l

    def trace(self, exe, d):
        os.makedirs(d)
        m = self.m
        meshgen.Mesh(m["nodes"], [(t["r"], tuple(i - 1 for i in t["q"])) for t in m["tets"]], [(t["r"], tuple(i - 1 for i in t["q"])) for t in m["tris"]]).write(os.path.join(d, "mesh.msh"))
        r = feel.Run(exe, d, self.settings(), timeout=120)
        sj, v0 = self.j0 * MUB / E, self.j0 * self.L / self.s0
        vf_ = feel.read_sol(r.path("out", "m_V.sol"))
        V = [sc(x[0] / v0 * 250) for _, x in vf_["rows"]] if vf_ else []
        fine = [max(-100, min(100, sc((x[0] / v0 * 250 - h) * 100))) if abs(h) < 10 ** 8 else 0 for (_, x), h in zip(vf_["rows"] if vf_ else [], V)]
        sols = [feel.read_sol(r.path("out", "m_iter%d.sol" % k)) for k in range(self.steps + 1)]
        sols = [s for s in sols if s]
        rows = []
        for s in sols:
            rows.append({"u": [[sc(c * 50) if math.isfinite(c) else 0 for c in x[:3]] for _, x in s["rows"]],
                         "s": [[sc(c / sj * 250) for c in x[4:7]] for _, x in s["rows"]]})
        first = []
        if self.steps == 1 and len(sols) == 2:
            u = [self.pal[int(p[0] + 2 * p[1] + 5 * p[2]) % len(self.pal)] for p in m["nodes"]]
            w = []
            for (_, y), u5 in zip(sols[1]["rows"], u):
                if any(math.isnan(c) for c in y[:3]):
                    w.append([0, 0, 0])
                    continue
                u0 = [c / 5.0 for c in u5]
                dot = sum(i * j for i, j in zip(u0, y))
                w.append([sc((i / dot - j) / self.q * 1000) for i, j in zip(y, u0)])
            first = [{"u": u, "b": self.b, "a": [self.alpha[t["r"]] for t in m["tets"]], "w": w, "noise": int(2e-8 / self.q * 1000) + 1}]
        self.out = {"rc": r.rc, "err": r.err[-300:], "log": r.out[-700:]}
        return {"kind": "transport", "m": m, "rc": 99 if r.rc is None else r.rc, "files": bool([f for f in feel.ls(r.path("out")) if f.endswith((".evol", ".sol"))]),
                "lc": self.lc(), "v": V, "fine": fine, "rows": rows, "first": first, "expect": self.steps + 1}


def campaign(runs, exe, scratch, ck, labels):
    d = os.path.join(scratch, "tr")
    os.makedirs(d)

    def one(a):
        w = os.path.join(d, str(a[0]))
        t = a[1].trace(exe, w)
        shutil.rmtree(w, ignore_errors=True)
        return t
    tr = vf.pmap(one, list(enumerate(runs)))
    bad, r = timeloop.validate(tr, scratch, "TransportTrace", timeout=800)
    for c, t, b in zip(runs, tr, bad):
        b = sorted(x for x in b if x.startswith(labels))
        if b:
            ck.violation(", ".join(b), {"case": c.describe(), "trace": t, "output": c.out})
    ck.add(trace_states=r.distinct, runs=len(tr), refused=sum(1 for t in tr if t["rc"]))
    return tr, bad
