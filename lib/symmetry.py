"""Runs of the real program on systems that are the same up to a transformation (SymmetryTrace)."""
import copy, json, math, os, re, shutil
import vf, feel, meshcase, timeloop
from meshcase import TRIP, MU0, sc

CFG = """CONSTANTS
 Depth = %d
SPECIFICATION Spec
INVARIANTS Rotation Invariant Covariant
CHECK_DEADLOCK FALSE
"""
ID = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def explore(scratch, depth):
    return vf.model_check("SymmetryMC", CFG % depth, scratch)


def rotations():
    out = []
    import itertools
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            R = [[s[i] if j == p[i] else 0 for j in range(3)] for i in range(3)]
            d = (R[0][0] * (R[1][1] * R[2][2] - R[1][2] * R[2][1]) - R[0][1] * (R[1][0] * R[2][2] - R[1][2] * R[2][0])
                 + R[0][2] * (R[1][0] * R[2][1] - R[1][1] * R[2][0]))
            if d == 1:
                out.append(R)
    return out


ROT = rotations()


def rot(R, v):
    return [sum(a * b for a, b in zip(r, v)) for r in R]


def parse(x):
    try:
        return float(x)
    except ValueError:
        return math.nan


def wrap(f, g, L, nargs, same=None):
    """The script f of the position, seen in the transformed system."""
    R, s = g["R"], g["s"]
    back = ["(" + " + ".join("(%d)*q[%d]" % (R[j][i], j) for j in range(3) if R[j][i]) + ")" for i in range(3)]
    fwd = ["(" + " + ".join("(%d)*v[%d]" % (R[i][j], j) for j in range(3) if R[i][j]) + ")" for i in range(3)]
    regs = ""
    if nargs == 4:
        regs = ", regs.map(function(n) { var t = %s; return t[n] === undefined ? n : t[n]; })" % json.dumps(dict(same or []))
    return "function(x, y, z%s) { var f = %s; var q = [x - %r, y - %r, z - %r]; var v = f(%s%s); return [%s]; }" % (
        ", regs" if nargs == 4 else "", f, s[0] * L, s[1] * L, s[2] * L, ", ".join(back), regs, ", ".join(fwd))


class Pair:
    def __init__(self, rng, prop, what, steps=3, tolscale=1):
        """what: subset of renumber, elements, regions, flip, threads, rotate, shift, split."""
        self.rng, self.prop, self.what, self.steps = rng, prop, what, steps
        c = self.case = meshcase.random_case(rng, prop, rules=["mod", "regions", "const"], fields=("uniform", "cells", "linear"))
        c.L = rng.choice([1e-9, 3e-9, 1e-8])
        c.ms0, c.k0, c.a0, c.b0 = rng.choice([8e5, 1.4e6]), rng.choice([1e4, 1e5]), rng.choice([1e-11, 3e-12]), rng.choice([0.1, 0.013])
        c.mform = "reg"
        for v in c.m["vols"]:
            v["uk"] = list(v["uk"])
        self.t0 = c.t0
        self.dt = rng.choice([1e-14, 3e-14])
        self.alpha = {v["n"]: rng.choice([0.1, 0.5, 1.0]) for v in c.m["vols"]}
        w = rng.choice([1e12, 3e12])
        self.w = w
        if "split" in what:
            c.m["dsurf"]["ks"] = 0
        self.g = {"perm": list(range(1, len(c.m["nodes"]) + 1)), "R": ID, "s": [0, 0, 0]}
        self.same = []
        self.threads = (1, 1)
        self.k, self.l = (rng.choice([0.25, 0.5, 2.0, 0.01]), rng.choice([0.1, 2.0, 10.0])) if "units" in what else (1.0, 1.0)
        self.build()

    def build(self):
        rng, what, c, g = self.rng, self.what, self.case, self.g
        if "renumber" in what:
            rng.shuffle(g["perm"])
        if "rotate" in what:
            g["R"] = rng.choice(ROT)
        if "shift" in what:
            g["s"] = [rng.choice([0, 0, 11, -40]) for _ in range(3)]
        p, R, s = g["perm"], g["R"], g["s"]
        m = copy.deepcopy(c.m)
        nodes = [None] * len(m["nodes"])
        for i, x in enumerate(m["nodes"]):
            nodes[p[i] - 1] = [a + b for a, b in zip(rot(R, x), s)]
        m["nodes"] = nodes
        for k in ("tets", "tris"):
            for t in m[k]:
                t["q"] = [p[i - 1] for i in t["q"]]
        for v in m["vols"] + m["surfs"] + [m["dsurf"]]:
            v["uk"] = rot(R, v["uk"])
        if "elements" in what:
            rng.shuffle(m["tets"])
            rng.shuffle(m["tris"])
            for t in m["tets"]:
                rng.shuffle(t["q"])
        if "flip" in what:
            for t in m["tris"]:
                rng.shuffle(t["q"])
        if "split" in what:
            v = rng.choice(m["vols"])
            new = dict(copy.deepcopy(v), n="new part")
            own = [t for t in m["tets"] if t["r"] == v["n"]]
            if len(own) > 1:
                # named surfaces may not end up inside a region, and are not affected by a division
                for t in rng.sample(own, rng.randint(1, len(own) - 1)):
                    t["r"] = "new part"
                m["vols"].insert(rng.randrange(len(m["vols"]) + 1), new)
                self.same = [["new part", v["n"]]]
                self.alpha["new part"] = self.alpha[v["n"]]
        if "regions" in what:
            rng.shuffle(m["vols"])
            rng.shuffle(m["surfs"])
        if "threads" in what:
            self.threads = (rng.choice([1, 2, 5]), rng.choice([1, 2, 3, 8]))
        self.m2 = m
        c2 = self.case2 = copy.copy(c)
        c2.m = m
        vo = list(dict.fromkeys(t["r"] for t in m["tets"]))
        so = list(dict.fromkeys(t["r"] for t in m["tris"]))
        if "regions" in what:
            rng.shuffle(vo)
            rng.shuffle(so)
        c2.orders = (vo, so)
        # the similar system: magnetizations k times larger, lengths l times larger
        k, l = self.k, self.l
        c2.ms0, c2.L, c2.a0, c2.k0, c2.b0 = c.ms0 * k, c.L * l, c.a0 * k * k * l * l, c.k0 * k * k, c.b0 * k

    def describe(self):
        return dict(self.case.describe(), g=self.g, same=self.same, m2=self.m2, what=self.what, dt=self.dt, threads=self.threads)

    def cols(self):
        sca = ["t", "dt", "max_dm", "max_angle", "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot"]
        if self.g["R"] == ID:
            sca.append("Thiele_length")
        vec = [["<Mx>", "<My>", "<Mz>"], ["<dMx/dt>", "<dMy/dt>", "<dMz/dt>"]]
        if self.case.field["k"] == "uniform":
            vec.append(["Hx", "Hy", "Hz"])
        keep = {v["n"] for v in self.case.m["vols"]} - {b for _, b in self.same}
        for n in sorted(keep)[:2]:
            vec.append([n + ":<M%s>" % a for a in "xyz"])
        return sca, vec

    def settings(self, second):
        c = self.case2 if second else self.case
        g = self.g
        s = c.settings()
        sca, vec = self.cols()
        cols = sca + [x for v in vec for x in v]
        k = self.k if second else 1.0
        dt, w = self.dt / k, self.w * k
        t0 = float(self.t0) / k
        if t0:
            s["initial_time"] = t0
        s["outputs"].update({"evol_time_step": dt, "final_time": t0 + self.steps * dt, "evol_columns": cols})
        for n, v in s["mesh"]["volume_regions"].items():
            v["alpha_LLG"] = self.alpha[n]
            if second:
                for a, e in zip(ID, ("ex", "ey", "ez")):
                    v[e] = rot(g["R"], a)
        mag = s["initial_magnetization"]
        if second and isinstance(mag, str):
            s["initial_magnetization"] = wrap(mag, g, c.L, 4 if mag.split(")")[0].count(",") == 3 else 3, self.same)
        f = c.field
        if f["k"] == "uniform":
            b = [x * c.b0 for x in f["b"]]
            if second:
                b = rot(g["R"], b)
            s["Bext"] = ["%r*Math.sin(%r*t+1)" % (x, w) for x in b]
        else:
            sp = s["Bext"]["space"]
            s["Bext"] = {"space": wrap(sp, g, c.L, 3) if second else sp, "time": "function(t) { return %r*Math.cos(%r*t); }" % (c.b0, w)}
        s["time_integration"] = {"min(dt)": dt, "max(dt)": dt, "max(du)": 0.95}
        k = self.threads[1 if second else 0]
        s["finite_element_solver"] = {"nb_threads": k, "tolerance": 1e-10, "max(iter)": 2000}
        s["demagnetizing_field_solver"] = {"nb_threads": k}
        return s

    def run(self, exe, d, second):
        c = self.case2 if second else self.case
        os.makedirs(d)
        c.write_mesh(os.path.join(d, "mesh.msh"))
        r = feel.Run(exe, d, self.settings(second), args=["--seed", "3"], timeout=120)
        ev = feel.read_evol(r.path("out", "m.evol"))
        rows = []
        sca, vec = self.cols()
        for k, row in enumerate(ev[2] if ev else []):
            sol = feel.read_sol(r.path("out", "m_iter%d.sol" % k))
            vals = [parse(x) for x in row]
            if sol is None or len(vals) != len(sca) + 3 * len(vec):
                break
            v = vals[len(sca):]
            rows.append({"s": vals[:len(sca)], "v": [v[3 * i:3 * i + 3] for i in range(len(vec))], "u": [x[:3] for _, x in sol["rows"]], "p": [x[3] for _, x in sol["rows"]]})
        return r, rows

    def trace(self, exe, d):
        (r1, a), (r2, b) = self.run(exe, os.path.join(d, "1"), False), self.run(exe, os.path.join(d, "2"), True)
        if r1.rc is None or r2.rc is None:
            raise vf.CheckError("the program did not end within 120 s on a small mesh")
        c = self.case
        sca, vec = self.cols()
        known = {v["n"]: v["ms"] for v in c.m["vols"]}
        msmax = max(known.values()) * c.ms0
        size = max(max(p[k] for p in c.m["nodes"]) - min(p[k] for p in c.m["nodes"]) for k in range(3)) * c.L
        esc = max([abs(x) for r in a for n, x in zip(sca, r["s"]) if n.startswith("E_") and math.isfinite(x)] + [1e-60])
        dsc = max([abs(x) for r in a[1:] for x in r["v"][1] if math.isfinite(x)] + [1e-30])
        hsc = max([abs(x) for r in a for v, n in zip(r["v"], vec) if n[0] == "Hx" for x in v if math.isfinite(x)] + [1e-30])
        sf, st = [], []
        for n in sca:
            f, tol = {"t": (1e6 / self.dt, 2), "dt": (1e6 / self.dt, 2), "max_dm": (1e7, 300), "max_angle": (1e6, 30), "Thiele_length": (1e6, 20)}.get(n, (1e7 / esc, 300))
            if n == "max_angle":
                tol = 2000     # cosines near 1 lose digits
            sf.append(f)
            st.append(tol)
        vf_, vt = [], []
        for n in vec:
            if n[0] == "Hx":
                vf_.append(1e6 / hsc), vt.append(5)
            elif n[0].startswith("<d"):
                vf_.append(1e6 / dsc), vt.append(300)
            else:
                vf_.append(1e7), vt.append(20)

        def reduced(n, x):     # in the units of the first system
            if n in ("t", "dt"):
                return x * self.k
            if n.startswith("E_"):
                return x / (self.k ** 2 * self.l ** 3)
            if n.startswith("<d") or n == "Hx":
                return x / self.k
            return x / self.l if n == "Thiele_length" else x / (self.k * self.l) if n == "phi" else x

        def conv(rows, second):
            out = []
            for r in rows:
                if second and (self.k != 1 or self.l != 1):
                    r = {"s": [reduced(n, x) for n, x in zip(sca, r["s"])], "v": [[reduced(n[0], x) for x in v] for n, v in zip(vec, r["v"])],
                         "u": r["u"], "p": [reduced("phi", x) for x in r["p"]]}
                out.append({"s": [sc((size / x if n == "Thiele_length" and x else x - (self.t0 if n == "t" else 0)) * f) if not math.isnan(x) else 10 ** 9 for n, x, f in zip(sca, r["s"], sf)],
                            "v": [[sc(x * f) if math.isfinite(x) else 0 for x in v] for v, f in zip(r["v"], vf_)],
                            "u": [[sc(x * 1e7) if math.isfinite(x) else 0 for x in v] for v in r["u"]],
                            "p": [sc(x / (msmax * size) * 1e7) if math.isfinite(x) else 0 for x in r["p"]]})
            return out
        if self.g["R"] != ID or self.l != 1:     # the tree of the multipole method does not turn with the system
            st = [x * (10 if n not in ("t", "dt") else 1) for n, x in zip(sca, st)]
            vt = [x * (10 if n[0] != "Hx" else 1) for n, x in zip(vec, vt)]
        self.out = {"rc": [r1.rc, r2.rc], "rows": [a[-1:], b[-1:]], "err": [r1.err[-200:], r2.err[-200:]]}
        return {"kind": "pair", "prop": self.prop, "m": c.m, "m2": self.m2, "g": self.g, "same": self.same, "rc": r1.rc, "rc2": r2.rc, "names": sca, "vnames": [x[0] for x in vec],
                "stol": st, "vtol": vt, "utol": 60 if self.g["R"] == ID else 1000, "ptol": 100 if self.g["R"] == ID else 400, "rows": conv(a, False), "rows2": conv(b, True)}


class Linear:
    """Systems on one mesh whose charges cancel when they are added with integer factors."""

    def __init__(self, rng, prop):
        self.rng, self.prop = rng, prop
        self.kind = rng.choice(["regions", "regions", "surfaces", "combine", "combine", "reverse"])
        while True:
            c = self.case = meshcase.random_case(rng, prop, rules=["mod"], magnetic=True, aniso=False)
            if self.kind == "regions" and len(c.m["vols"]) < 2 or self.kind == "surfaces" and len(c.m["surfs"]) < 1:
                continue
            break
        m = c.m
        c.L = rng.choice([1e-9, 3e-9, 1e-8])
        known = {v["n"] for v in m["vols"]}
        # only nodes of known regions can be asked for a magnetization
        n = len(m["nodes"])
        U = meshcase.UNITS
        table = {i: list(rng.choice(TRIP)) for i in range(n)}
        sy = []

        def system(cf, u, **kw):
            mm = copy.deepcopy(m)
            for v in mm["vols"]:
                v["ms"] = kw.get("ms", {}).get(v["n"], v["ms"])
            for x in mm["surfs"]:
                x["sup"] = kw.get("sup", {}).get(x["n"], x["sup"])
            mm["dsurf"]["sup"] = kw.get("sup", {}).get(None, mm["dsurf"]["sup"])
            sy.append({"c": cf, "m": mm, "u": [u[i] for i in range(n)]})
        if self.kind == "regions":
            names = [v["n"] for v in m["vols"]]
            cut = rng.randint(1, len(names) - 1)
            a, b = [{x: rng.randint(1, 5) for x in names} for _ in range(2)]
            A, B = names[:cut], names[cut:]
            system(1, table, ms=a)
            system(1, table, ms=b)
            system(-1, table, ms={x: a[x] if x in A else b[x] for x in names})
            system(-1, table, ms={x: a[x] if x in B else b[x] for x in names})
        elif self.kind == "surfaces":
            names = [None] + [v["n"] for v in m["surfs"]]
            rng.shuffle(names)
            cut = rng.randint(1, len(names) - 1)
            f = [{x: bool(rng.getrandbits(1)) for x in names} for _ in range(2)]
            system(1, table, sup=f[0])
            system(1, table, sup=f[1])
            system(-1, table, sup={x: f[names.index(x) < cut][x] for x in names})
            system(-1, table, sup={x: f[names.index(x) >= cut][x] for x in names})
        elif self.kind == "combine":
            u1 = {i: list(rng.choice(U)) for i in range(n)}
            u2 = {i: list(rng.choice([v for v in U if sum(x * y for x, y in zip(v, u1[i])) == 0])) for i in range(n)}
            system(5, {i: [(3 * a + 4 * b) // 5 for a, b in zip(u1[i], u2[i])] for i in range(n)})
            system(-3, u1)
            system(-4, u2)
        else:
            system(1, table)
            system(1, {i: [-c for c in v] for i, v in table.items()})
        self.systems = sy

    def describe(self):
        return {"kind": self.kind, "L": self.case.L, "ms0": self.case.ms0, "systems": self.systems}

    def trace(self, exe, d):
        out = []
        size = max(max(p[k] for p in self.case.m["nodes"]) - min(p[k] for p in self.case.m["nodes"]) for k in range(3)) * self.case.L
        self.out = {"rc": []}
        for k, y in enumerate(self.systems):
            c = copy.copy(self.case)
            c.m, c.t0, c.columns = y["m"], 0, ["E_demag"]
            w = os.path.join(d, str(k))
            os.makedirs(w)
            c.write_mesh(os.path.join(w, "mesh.msh"))
            s = c.settings()
            s["initial_magnetization"] = "function(x, y, z) { %s var t = %s; return t[x + ' ' + y + ' ' + z]; }" % (
                c.js_point(), json.dumps({"%d %d %d" % tuple(p): u for p, u in zip(y["m"]["nodes"], y["u"])}))
            s["Bext"] = [0, 0, 0]
            r = feel.Run(exe, w, s, timeout=120)
            sol = feel.read_sol(r.path("out", "m_iter0.sol"))
            mm = max(v["ms"] for v in y["m"]["vols"])
            self.out["rc"].append([r.rc, r.err[-200:]])
            out.append({"c": y["c"], "m": y["m"], "u": y["u"], "rc": 99 if r.rc is None else r.rc,
                        "p": [sc(v[3] / (c.ms0 * size) * 1e6) if len(v) > 3 and math.isfinite(v[3]) else 10 ** 8 for _, v in sol["rows"]] if sol else []})
        return {"kind": "linear", "prop": self.prop, "systems": out, "tol": 30}


class Dipole:
    """A small magnetic body seen from far; the potential is read on nodes of tiny, almost non-magnetic bodies."""
    FAR = [(20, 20, 10), (24, 18, 0), (0, 30, 0), (4, 22, 20), (0, 18, -24), (30, 0, 0), (28, 10, 4), (10, -28, 4), (0, 0, 30), (20, -10, 20), (10, 20, 20), (18, 0, -24)]

    def __init__(self, rng, prop):
        self.rng, self.prop = rng, prop
        self.far = rng.sample(self.FAR, 3)
        self.far = [[a[i] * rng.choice([1, -1]) for i in range(3)] for a in self.far]
        self.pal = [list(rng.choice(TRIP)) for _ in range(rng.choice([1, 1, 4]))]
        self.a = [rng.randint(0, 3) for _ in range(3)]
        self.L = rng.choice([1e-9, 1e-8])
        self.ms = [rng.randint(1, 3) for _ in range(2)]
        self.shift = [rng.choice([0, 0, 17, -60]) for _ in range(3)]
        self.perm = None
        self.units = (1, 1)

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k not in ("rng", "out")}

    def trace(self, exe, d):
        rng = self.rng
        import meshgen
        body = meshgen.box((2, 2, 2), (2., 2., 2.), (-1., -1., -1.), region=lambda x, y, z: "A" if x < 0 else "B")
        nodes = [[int(c) for c in p] for p in body.nodes]
        tets = [{"r": r, "q": [i + 1 for i in q]} for r, q in body.tets]
        pairs = []
        for f in self.far:
            pr = []
            for s in (1, -1):
                n = len(nodes)
                p = [s * c for c in f]
                dirs = [[(2 if c > 0 else -2) if k == j else 0 for k in range(3)] for j, c in enumerate(p)]
                nodes += [p] + [[a + b for a, b in zip(p, e)] for e in dirs]
                q = [n + 1, n + 2, n + 3, n + 4]
                rng.shuffle(q)
                tets.append({"r": "P", "q": q})
                pr.append(n + 1)
            pairs.append(pr)
        npal = len(self.pal)
        u = [self.pal[sum(x * y for x, y in zip(self.a, p)) % npal] for p in nodes]
        perm = list(range(1, len(nodes) + 1))
        rng.shuffle(perm)
        inv = {b: a for a, b in enumerate(perm)}
        nodes = [nodes[inv[j + 1]] for j in range(len(nodes))]
        u = [u[inv[j + 1]] for j in range(len(u))]
        for t in tets:
            t["q"] = [perm[i - 1] for i in t["q"]]
        pairs = [[perm[i - 1] for i in p] for p in pairs]
        rng.shuffle(tets)
        vols = [dict({"n": n, "ms": m, "ae": 0, "k": 0, "uk": [5, 0, 0], "k3": 0}) for n, m in (("A", self.ms[0]), ("B", self.ms[1]), ("P", 0))]
        rng.shuffle(vols)
        m = {"nodes": nodes, "tets": tets, "tris": [], "vols": vols, "surfs": [], "dsurf": dict(meshcase.DSURF)}
        c = meshcase.Case(dict(m, nodes=[[a + b for a, b in zip(p, self.shift)] for p in nodes]), self.prop, rng)
        c.L, c.columns = self.L, ["E_demag"]
        os.makedirs(d)
        c.write_mesh(os.path.join(d, "mesh.msh"))
        s = c.settings()
        s["mesh"]["volume_regions"]["P"]["Ms"] = 1e-4
        s["initial_magnetization"] = "function(x, y, z) { %s var t = %s; return t[x + ' ' + y + ' ' + z]; }" % (
            c.js_point(), json.dumps({"%d %d %d" % tuple(p): v for p, v in zip(c.m["nodes"], u)}))
        r = feel.Run(exe, d, s, timeout=120)
        sol = feel.read_sol(r.path("out", "m_iter0.sol"))
        self.out = {"rc": r.rc, "err": r.err[-300:]}
        f = 4 * math.pi * 1e5 / (c.ms0 * self.L)
        p = [sc(v[3] * f) if len(v) > 3 and math.isfinite(v[3]) else 10 ** 8 for _, v in sol["rows"]] if sol else []
        return {"kind": "dipole", "prop": self.prop, "m": m, "u": u, "rc": 99 if r.rc is None else r.rc, "p": p, "pairs": pairs, "r": 30}


Z3 = (0, 0, 0)
# no change of volume; the last ones make obtuse triangles
SHEARS = [(Z3, Z3, Z3), (Z3, Z3, Z3), ((0, -0.5, 0), Z3, Z3), ((0, -1, 0), Z3, Z3), ((0, 0, 1), Z3, Z3), (Z3, (0, 0, -1), Z3), (Z3, Z3, (-1, 0, 0)), (Z3, Z3, (0.5, 1, 0)), ((0, -1, 1), (0, 0, -0.5), Z3)]


class Refine:
    """A uniformly magnetized box along x, y, z, with a mesh and a mesh twice as fine."""

    def __init__(self, rng, prop):
        self.rng, self.prop = rng, prop
        self.n = rng.choice([(1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 2), (3, 2, 1), (1, 1, 3), (3, 3, 1)])
        self.l = [x * rng.choice([4.0, 5.0]) for x in self.n]
        self.L = rng.choice([1e-9, 1e-8])
        self.ms = rng.choice([8e5, 1e5, 1.5e6])
        self.o = [rng.choice([0.0, -30.0, 100.0]) for _ in range(3)]
        self.sh = SHEARS[rng.randrange(len(SHEARS))]

    def sheared(self, m):
        m.nodes = [tuple(p[i] + sum(self.sh[i][k] * p[k] for k in range(3)) for i in range(3)) for p in m.nodes]
        return m

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k not in ("rng", "out")}

    def trace(self, exe, d):
        import meshgen
        S = []
        self.out = []
        for f in (1, 2):
            os.makedirs(d, exist_ok=True)
            self.sheared(meshgen.box(tuple(f * x for x in self.n), self.l, self.o)).write(os.path.join(d, "mesh%d.msh" % f))
            e = []
            for k in range(3):
                m = [0, 0, 0]
                m[k] = self.rng.choice([1, -1])
                s = {"outputs": {"directory": "o%d%d" % (f, k), "file_basename": "m", "evol_time_step": 1e-12, "final_time": 0.0, "evol_columns": ["E_demag"]},
                     "mesh": {"filename": "mesh%d.msh" % f, "length_unit": self.L, "volume_regions": {"A": {"Ms": self.ms}}}, "initial_magnetization": m}
                r = feel.Run(exe, d, s, timeout=120)
                ev = feel.read_evol(r.path("o%d%d" % (f, k), "m.evol"))
                v = self.l[0] * self.l[1] * self.l[2] * self.L ** 3
                e.append(sc(parse(ev[2][0][0]) / (0.5 * MU0 * self.ms ** 2 * v) * 1e6, 10 ** 8) if ev and ev[2] else -10 ** 8)
            S.append(e)
            self.out.append(e)
        return {"kind": "refine", "prop": self.prop, "coarse": S[0], "fine": S[1]}


def campaign(runs, exe, scratch, ck, labels):
    d = os.path.join(scratch, "symmetry")
    os.makedirs(d)

    def one(a):
        w = os.path.join(d, str(a[0]))
        t = a[1].trace(exe, w)
        shutil.rmtree(w, ignore_errors=True)
        return t
    tr = vf.pmap(one, list(enumerate(runs)))
    bad, r = timeloop.validate(tr, scratch, "SymmetryTrace", timeout=800)
    if any(x.startswith("experiment.") for b in bad for x in b):
        raise vf.CheckError("an experiment does not fulfil its own hypothesis: %s" % [(c.describe(), b) for c, b in zip(runs, bad) if any(x.startswith("experiment.") for x in b)][:1])
    for c, t, b in zip(runs, tr, bad):
        b = sorted(x for x in b if x.startswith(labels))
        if b:
            ck.violation(", ".join(b), {"case": c.describe(), "output": c.out})
    kinds = {}
    for t in tr:
        kinds["runs_" + t["kind"]] = kinds.get("runs_" + t["kind"], 0) + 1
    ck.add(trace_states=r.distinct, **kinds)
    return tr, bad
