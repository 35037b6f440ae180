"""Recentering of a domain wall by the real program, compared with Recenter.tla by TLC (RecenterTrace)."""
import json, math, os, shutil
import vf, feel, meshcase, meshgen, timeloop
from meshcase import TRIP

CFG = """CONSTANTS
 Depth = %d
 Thr = %d
SPECIFICATION Spec
INVARIANTS Copies Ends Centred Volume
CHECK_DEADLOCK FALSE
"""


def explore(scratch, depth):
    n = 0
    for thr in (0, 200, 600):
        n += vf.model_check("RecenterMC", CFG % (depth, thr), scratch).distinct
    return n


class Case:
    def __init__(self, rng):
        self.rng = rng
        ax = self.ax = rng.randrange(3)
        n = [rng.choice([1, 1, 2]) for _ in range(3)]
        n[ax] = rng.randint(4, 8)
        l = [rng.choice([1, 2]) for _ in range(3)]
        org = [rng.choice([0, 5, -20]) for _ in range(3)]
        other = [c for c in range(3) if c != ax]
        tr = [c for c in other if n[c] == 2]
        cap = rng.choice(tr) if tr and rng.random() < 0.5 else None
        two = rng.random() < 0.3
        if cap is not None:
            n[cap] = rng.choice([2, 3, 4])

        def region(x, y, z):
            c = (x, y, z)
            if cap is not None and c[cap] > org[cap] + l[cap]:
                return "cap"
            return "B" if two and c[ax] > org[ax] + l[ax] * (n[ax] // 2) else "A"
        b = meshgen.box(n, [float(a * m) for a, m in zip(n, l)], [float(o) for o in org], region)
        nodes = [[int(round(c)) for c in p] for p in b.nodes]
        self.s = s = rng.choice([1, -1])
        e = [0, 0, 0]
        e[ax] = 5
        left, right = [s * c for c in e], [-s * c for c in e]
        if rng.random() < 0.15:
            right = left
        w, width = rng.randint(1, n[ax] - 1), rng.choice([0, 1, 1, 2])
        mid = [list(rng.choice(TRIP)) for _ in range(3)]
        ragged = rng.random() < 0.3
        noise = rng.choice([0, 0, 0.2])
        u = []
        for p in nodes:
            k = (p[ax] - org[ax]) // l[ax]
            x = left if k < w else mid[k - w] if k - w < width and 0 < k < n[ax] else right
            if (0 < k < n[ax] or ragged) and rng.random() < noise:
                x = list(rng.choice(TRIP))
            u.append(x)
        perm = list(range(len(nodes)))
        rng.shuffle(perm)
        nn, uu = [None] * len(nodes), [None] * len(nodes)
        for i, p in enumerate(nodes):
            nn[perm[i]], uu[perm[i]] = p, u[i]
        tets = [{"r": r, "q": [perm[i] + 1 for i in q]} for r, q in b.tets]
        rng.shuffle(tets)
        used = {t["r"] for t in tets}
        self.m = {"nodes": nn, "tets": tets, "tris": [], "vols": [{"n": x, "ms": 0 if x == "cap" else 1} for x in ("A", "B", "cap") if x in used], "surfs": []}
        self.u = uu
        self.thr = rng.choice([0, 50, 100, 200, 300, 500, 800])
        self.negative = rng.random() < 0.2
        self.on = rng.random() < 0.9
        self.steps = rng.randint(2, 5)
        self.L = rng.choice([1e-9, 5e-9])
        self.perm = rng.choice(["X", "Y", "Z"])

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k != "rng"}

    def settings(self):
        L, dt = self.L, 1e-16
        tab = json.dumps({"_".join(map(str, p)): u for p, u in zip(self.m["nodes"], self.u)})
        rec = {"enable": self.on, "direction": "XYZ"[self.ax], "threshold": (-1 if self.negative else 1) * self.thr / 1000.0}
        return {"outputs": {"directory": "out", "file_basename": "m", "evol_time_step": dt, "final_time": dt * self.steps, "evol_columns": ["t"], "mag_config_every": 1},
                "mesh": {"filename": "mesh.msh", "length_unit": L,
                         "volume_regions": {v["n"]: {"Ms": 1000 * v["ms"], "Ae": 0, "alpha_LLG": 0.5} for v in self.m["vols"]}, "surface_regions": {}},
                "initial_magnetization": "function(x,y,z) { var t = %s; var r = function(a) { var i = Math.round(a/%r); return i === 0 ? 0 : i; }; return t[r(x)+'_'+r(y)+'_'+r(z)]; }" % (tab, L),
                "Bext": [0.01, 0.02, -0.01], "recentering": rec, "time_integration": {"min(dt)": dt, "max(dt)": dt, "max(du)": 0.5},
                "finite_element_solver": {"nb_threads": 1}, "demagnetizing_field_solver": {"nb_threads": 1}}

    def trace(self, exe, d):
        os.makedirs(d)
        m = self.m
        meshgen.Mesh(m["nodes"], [(t["r"], tuple(i - 1 for i in t["q"])) for t in m["tets"]], []).write(os.path.join(d, "mesh.msh"))
        r = feel.Run(exe, d, self.settings(), timeout=120)
        sols = [feel.read_sol(r.path("out", "m_iter%d.sol" % k)) for k in range(self.steps + 1)]
        ms = {v["n"]: v["ms"] for v in m["vols"]}
        mag = {i for t in m["tets"] if ms[t["r"]] for i in t["q"]}
        rows, exact = [], True
        for s in sols:
            if not s:
                continue
            row = []
            for i, (_, x) in enumerate(s["rows"]):
                if i + 1 not in mag:
                    row.append([0, 0, 0])
                    continue
                y = [round(c * 5) if math.isfinite(c) else 9 for c in x[:3]]
                exact = exact and all(math.isfinite(c) and abs(c - v / 5.0) < 1e-4 for c, v in zip(x, y))
                row.append(y)
            exact = exact and len(row) == len(m["nodes"])
            rows.append(row)
        self.out = {"rc": r.rc, "err": r.err[-300:], "log": r.out[-500:]}
        return {"kind": "recenter", "m": m, "ax": self.ax + 1, "thr": self.thr, "on": self.on, "rc": 99 if r.rc is None else r.rc, "rows": rows, "exact": exact, "expect": self.steps + 1}


def campaign(runs, exe, scratch, ck, labels):
    d = os.path.join(scratch, "rc")
    os.makedirs(d)

    def one(a):
        w = os.path.join(d, str(a[0]))
        t = a[1].trace(exe, w)
        shutil.rmtree(w, ignore_errors=True)
        return t
    tr = vf.pmap(one, list(enumerate(runs)))
    bad, r = timeloop.validate(tr, scratch, "RecenterTrace", timeout=800)
    for c, t, b in zip(runs, tr, bad):
        b = sorted(x for x in b if x.startswith(labels))
        if b:
            ck.violation(", ".join(b), {"case": c.describe(), "settings": c.settings(), "trace": t, "output": c.out})
    moved = sum(1 for t in tr if len(t["rows"]) > 2 and t["rows"][1] != t["rows"][2])
    ck.add(trace_states=r.distinct, runs=len(tr), translated=moved, failed=sum(1 for t in tr if t["rc"]))
    return tr, bad
