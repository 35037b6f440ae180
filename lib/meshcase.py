"""Meshes with integer coordinates, given to the real program together with regions, initial
magnetizations and fields; what it does is compared with MeshModel by TLC (MeshTrace)."""
import copy, json, math, os, random, re
import vf, feel, meshgen, timeloop

MU0 = 4e-7 * math.pi
UNITS = [(5, 0, 0), (-5, 0, 0), (0, 5, 0), (0, -5, 0), (0, 0, 5), (0, 0, -5)]
TRIP = UNITS + [tuple(p) for a in (3, -3) for b in (4, -4) for p in
                ((a, b, 0), (b, a, 0), (a, 0, b), (b, 0, a), (0, a, b), (0, b, a))]
AXES = [(5, 0, 0), (0, 5, 0), (0, 0, 5), (3, 4, 0), (0, 3, -4), (-4, 0, 3)]
DSURF = {"n": "__default__", "sup": False, "ks": 0, "uk": [0, 0, 5]}


def det6(nodes, q):
    a, b, c, d = (nodes[i] for i in q)
    u, v, w = ([y[k] - a[k] for k in range(3)] for y in (b, c, d))
    return (u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]))


class Case:
    """m: the mesh and regions as in MeshModel, with node numbers from 1."""

    def __init__(self, m, prop, rng):
        self.m, self.prop, self.rng = m, prop, rng
        self.L = 1e-9
        self.ms0, self.a0, self.k0, self.b0 = 8e5, 1e-11, 1e4, 0.1
        self.rule = {"k": "const", "pal": [list(rng.choice(TRIP))], "a": [0, 0, 0], "d": 0, "names": []}
        self.field = {"k": "uniform", "b": [0, 0, 0]}
        self.mform, self.fform = "list", "list"
        self.columns = []
        self.t0 = 0
        self.binary = False
        self.orders = (None, None)
        self.broken = ""

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k not in ("rng",)}

    # ------------------------------------------------------------ settings
    def write_mesh(self, path):
        m = self.m
        mm = meshgen.Mesh(m["nodes"], [(t["r"], tuple(i - 1 for i in t["q"])) for t in m["tets"]],
                          [(t["r"], tuple(i - 1 for i in t["q"])) for t in m["tris"]])
        mm.write(path, *self.orders)
        if self.broken:
            damage(path, self.broken, self.rng)

    def js_point(self):
        return "x=Math.round(x/%r);y=Math.round(y/%r);z=Math.round(z/%r);" % (self.L, self.L, self.L)

    def mag_setting(self):
        r = self.rule
        if r["k"] == "const":
            v = [float(x) * self.mscale for x in r["pal"][0]]
            return {"list": v, "exprs": ["%r + 0*x" % c for c in v], "fun": "function(x,y,z) { return %s; }" % json.dumps(v),
                    "reg": "function(x,y,z,regions) { return %s; }" % json.dumps(v)}[self.mform]
        if r["k"] == "linear":
            ex = ["(%d)*x + (%d)*y + (%d)*z + (%d)" % (tuple(row) + (b,)) for row, b in zip(r["m"], r["b"])]
            if self.mform == "exprs":
                return ["(%d)*x/%r + (%d)*y/%r + (%d)*z/%r + (%d)" % (row[0], self.L, row[1], self.L, row[2], self.L, b)
                        for row, b in zip(r["m"], r["b"])]
            return "function(x,y,z) { x/=%r;y/=%r;z/=%r; return [%s]; }" % (self.L, self.L, self.L, ", ".join(ex))
        pal = json.dumps([[c * self.mscale for c in v] for v in r["pal"]])
        if r["k"] == "mod":
            return "function(x, y, z%s) {\n  %s\n  var p = %s, n = p.length, i = (%d)*x+(%d)*y+(%d)*z+(%d);\n  return p[((i %% n) + n) %% n];\n}" % (
                ", regs" if self.mform == "reg" else "", self.js_point(), pal, r["a"][0], r["a"][1], r["a"][2], r["d"])
        if r["k"] == "regions":
            w = "".join("  if (regions.%s) i += %d;\n" % (
                "includes(%s)" % json.dumps(n) if self.mform == "reg" else "indexOf(%s) >= 0" % json.dumps(n), 2 ** k) for k, n in enumerate(r["names"]))
            return "function(x, y, z, regions) {\n  %s\n  var p = %s, n = p.length, i = (%d)*((%d)*x+(%d)*y+(%d)*z);\n%s  return p[((i %% n) + n) %% n];\n}" % (
                self.js_point(), pal, r["d"], r["a"][0], r["a"][1], r["a"][2], w)
        raise ValueError(r)

    def field_setting(self):
        f = self.field
        if f["k"] == "uniform":
            v = [c * self.b0 for c in f["b"]]
            T = float(self.t0)
            return {"list": v, "exprs": ["%r + 1e9*(t - %r)" % (c, T) for c in v],
                    "fun": "function(t) { return t == %r ? %s : [1,2,3]; }" % (T, json.dumps(v)),
                    "space": {"space": "function(x,y,z) { return %s; }" % json.dumps([c * 2.0 for c in f["b"]]),
                              "time": "function(t) { return %r; }" % (self.b0 / 2)}}[self.fform]
        amp = f["amp"] * self.b0
        time = self.rng.choice(["function(t) { return %r; }" % amp, "function(t) { return %r + 1e10*(t - %r); }" % (amp, float(self.t0))])
        if f["k"] == "cells":
            space = "function(x, y, z) { var i = Math.floor(x/%r), j = Math.floor(y/%r), k = Math.floor(z/%r), p = %s, n = p.length; i = (%d)*i + (%d)*j + (%d)*k; return p[((i %% n) + n) %% n]; }" % (
                f["l"][0] * self.L, f["l"][1] * self.L, f["l"][2] * self.L, json.dumps(f["pal"]), f["a"][0], f["a"][1], f["a"][2])
        else:
            space = "function(x,y,z) { x/=%r;y/=%r;z/=%r; return [%s]; }" % (
                self.L, self.L, self.L, ", ".join("(%d)*x + (%d)*y + (%d)*z + (%d)" % (tuple(row) + (b,)) for row, b in zip(f["m"], f["b"])))
        return {"space": space, "time": time}

    def settings(self):
        m = self.m

        def uk(v):
            return [c / 5.0 for c in v]
        vols = {}
        for v in m["vols"]:
            vols[v["n"]] = {"Ms": v["ms"] * self.ms0, "Ae": v["ae"] * self.a0, "K": v["k"] * self.k0, "uk": uk(v["uk"]), "K3": v["k3"] * self.k0,
                            "ex": [1, 0, 0], "ey": [0, 1, 0], "ez": [0, 0, 1], "alpha_LLG": 0.5}
        surfs = {}
        for s in [m["dsurf"]] + m["surfs"]:
            surfs[s["n"]] = {"suppress_charges": s["sup"], "Ks": s["ks"] * self.k0 * self.L, "uk": uk(s["uk"])}
        out = {"outputs": {"directory": "out", "file_basename": "m", "evol_time_step": 1e-12, "final_time": float(self.t0), "evol_columns": self.columns,
                           "mag_config_every": 1},
               "mesh": {"filename": "mesh.msh", "length_unit": self.L, "volume_regions": vols, "surface_regions": surfs},
               "initial_magnetization": self.mag_setting(), "Bext": self.field_setting(),
               "time_integration": {"min(dt)": 1e-16, "max(dt)": 1e-13, "max(du)": 0.1},
               "finite_element_solver": {"nb_threads": 1}, "demagnetizing_field_solver": {"nb_threads": 1}}
        if self.t0:
            out["initial_time"] = float(self.t0)
        return out

    mscale = 1

    # ------------------------------------------------------------ run
    def lcm(self):
        l = 1
        for t in self.m["tets"]:
            d = abs(det6(self.m["nodes"], [i - 1 for i in t["q"]]))
            if d:
                l = l * d // math.gcd(l, d)
        return l if l <= 64 else 1

    def execute(self, exe, d):
        os.makedirs(d, exist_ok=True)
        self.write_mesh(os.path.join(d, "mesh.msh"))
        return feel.Run(exe, d, self.settings(), args=["-v", "--seed", "1"], timeout=120)

    def trace(self, exe, d):
        r = self.execute(exe, d)
        m, L = self.m, self.L
        t = {"m": m, "prop": self.prop, "rc": 99 if r.rc is None else r.rc, "rule": self.rule, "field": self.field, "t0": 0, "lcm": self.lcm(),
             "broken": self.broken, "asked": [{"r": (c.rsplit(":", 1)[0] or "(empty)") if ":" in c else "", "c": c.rsplit(":", 1)[-1]} for c in self.columns],
             "files": bool([f for f in feel.ls(r.path("out")) if f.endswith((".sol", ".evol"))])}
        if r.rc is None:
            raise vf.CheckError("the program did not end within 120 s on a small mesh")
        info = {}
        for k, pat in (("nodes", r"nodes:\s+(\d+)"), ("tris", r"triangles:\s+(\d+)"), ("tets", r"tetraedrons:\s+(\d+)")):
            x = re.search(pat, r.out)
            info[k] = int(x.group(1)) if x else -1
        x = re.search(r"total volume:\s+(\S+)", r.out)
        try:
            info["vol6"] = sc(float(x.group(1)) / L ** 3 * 6000) if x else -1
        except ValueError:
            info["vol6"] = -1
        t["shown"] = all(v != -1 for v in info.values())
        t["info"] = info
        t["created"] = re.findall("created the surface region ‘(.*?)’", r.out)
        sol = feel.read_sol(r.path("out", "m_iter0.sol"))
        t["saved"] = sol is not None
        mag = []
        phi = []
        for i, (ix, v) in enumerate(sol["rows"] if sol else []):
            if ix != i or len(v) < 4:
                mag.append({"nan": True, "u": [0, 0, 0], "n": 10 ** 9})
            elif any(math.isnan(c) for c in v[:3]):
                mag.append({"nan": True, "u": [0, 0, 0], "n": 0 if all(math.isnan(c) for c in v[:3]) else 10 ** 9})
            else:
                mag.append({"nan": False, "u": [sc(5000 * c) for c in v[:3]], "n": sc((sum(c * c for c in v[:3]) - 1) * 1e7)})
            phi.append(v[3] if len(v) > 3 else math.nan)
        t["mag"] = mag
        ev = feel.read_evol(r.path("out", "m.evol"))
        exact = all(sum(c * c for c in v) == 25 for v in self.rule.get("pal", [])) and self.rule["k"] != "linear"
        t["rowed"] = bool(ev and ev[2] and exact)
        t["cols"], t["ncols"], t["esum"], t["edem"] = [], 0, [], []
        if t["rowed"]:
            row = ev[2][0]
            t["ncols"] = len(row) if len(ev[2]) == 1 else -len(ev[2])
            e = {}
            for c, s in zip(self.columns, row):
                reg, name = c.rsplit(":", 1) if ":" in c else ("", c)
                try:
                    v = float(s)
                except ValueError:
                    v = math.nan
                e[name] = v
                t["cols"].append(self.cell(name, reg, v))
            for c in self.columns[len(row):]:
                t["cols"].append({"c": c, "r": "", "v": 0, "fin": False})
            k = MU0 * self.ms0 ** 2 * L ** 3
            terms = ["E_tot", "E_ex", "E_aniso", "E_demag", "E_zeeman"]
            if all(x in e for x in terms):
                big = max(abs(e[x]) for x in terms)
                t["esum"] = [sc(e[x] / big * 1e8) if big and math.isfinite(big) else 0 if e[x] == 0 else 7 for x in terms]
            if "E_demag" in e and len(phi) == len(m["nodes"]) and all(math.isfinite(p) for p in phi):
                sphi = 1000 if len(m["tets"]) < 40 else 300
                t["edem"] = [sc(e["E_demag"] / k * 240 * sphi), [sc(p / (self.ms0 * L) * sphi) for p in phi]]
        self.out = {"rc": r.rc, "err": r.err[-500:], "row": ev[2][:1] if ev else None}
        return t

    def cell(self, name, reg, v):
        L = self.L
        f = 1
        if name in ("<Mx>", "<My>", "<Mz>"):
            f = 1e5
        elif name == "E_ex":
            f = 1500 * self.lcm() / (self.a0 * L)
        elif name == "E_zeeman":
            f = 6000 / (self.ms0 * self.b0 * L ** 3)
        elif name == "E_aniso":
            f = 750000 / (self.k0 * L ** 3)
        elif name in ("Hx", "Hy", "Hz"):
            f = MU0 / self.b0 * 1e5
        elif name == "max_angle":
            v = math.cos(v) if math.isfinite(v) else v
            f = 25000
        elif name == "Thiele_length":
            zs = [p[2] for p in self.m["nodes"]]
            f = (max(zs) - min(zs)) / L * 1000
        elif name == "t":
            return {"c": name, "r": reg, "v": 0 if v == float(self.t0) else 1, "fin": math.isfinite(v)}
        return {"c": name, "r": reg, "v": sc(v * f), "fin": math.isfinite(v * f) and abs(v * f) < 2e9}


def sc(x, most=2 * 10 ** 9):
    if not math.isfinite(x):
        return most
    return int(max(-most, min(most, round(x))))


COLS = ["t", "iter", "dt", "max_dm", "max_angle", "<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "Thiele_length",
        "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot", "Hx", "Hy", "Hz"]
REGCOLS = ["<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "Thiele_length"]


def from_enum(c, prop, rng):
    """A case enumerated by TLC (MeshMC)."""
    m = {k: c[k] for k in ("nodes", "tets", "tris", "vols", "surfs")}
    m["dsurf"] = copy.deepcopy(DSURF)
    used = sorted({i for t in m["tets"] for i in t["q"]} | {i for t in m["tris"] for i in t["q"]})
    ren = {o: n + 1 for n, o in enumerate(used)}
    m["nodes"] = [m["nodes"][i - 1] for i in used]
    for k in ("tets", "tris"):
        m[k] = [{"r": t["r"], "q": [ren[i] for i in t["q"]]} for t in m[k]]
    cs = Case(m, prop, rng)
    cs.columns = ["<Mx>", "<My>", "<Mz>"]
    return cs


NAMES = ["A", "B", "B 2", "volume:1", "A.1", "é", "surface(A)", "1"]
SNAMES = ["S", "T", "surface(A)", "interface(A, B)", "interface(B, A)", "surface(A).1", "s 2", "A"]


def random_case(rng, prop, illegal=0.0, rules=None, fields=("uniform",), magnetic=False, surfaces=True, big=False, aniso=True, plain=False):
    n = [rng.randint(1, 3 if big else 2) for _ in range(3)]
    while n[0] * n[1] * n[2] > (12 if big else 6):
        n[rng.randrange(3)] -= rng.choice([0, 1]) if max(n) > 1 else 0
        n = [max(1, x) for x in n]
    uniform = rng.random() < 0.5 or "cells" in fields
    lines = []
    step = [rng.choice([1, 1, 2]) for _ in range(3)]
    for k in range(3):
        o = rng.choice([0, 0, -3, 7, 40, -100])
        if uniform:
            o -= o % step[k]
        c = [o]
        for _ in range(n[k]):
            c.append(c[-1] + (step[k] if uniform else rng.choice([1, 2])))
        lines.append(c)
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3]))
    if plain:
        names = ["A"]
    cellreg = {}
    pool = names + ([None] if rng.random() < 0.2 else []) + (["other"] if rng.random() < 0.2 else [])
    for i in range(n[0]):
        for j in range(n[1]):
            for k in range(n[2]):
                cellreg[i, j, k] = rng.choice(pool)
    if not any(r in names for r in cellreg.values()):
        cellreg[0, 0, 0] = names[0]
    num, nodes, tets = {}, [], []
    mir = [rng.random() < 0.5 for _ in range(3)]

    def node(ix):
        if ix not in num:
            num[ix] = len(nodes) + 1
            nodes.append([lines[k][ix[k]] for k in range(3)])
        return num[ix]
    for (i, j, k), r in sorted(cellreg.items()):
        if r is None:
            continue
        for c in meshgen.CUBE:
            # mirroring all the cells the same way keeps the mesh conforming
            q = [node((i + (1 - a if mir[0] else a), j + (1 - b if mir[1] else b), k + (1 - e if mir[2] else e))) for a, b, e in c]
            rng.shuffle(q)
            tets.append({"r": r, "q": q})
    # refine: put a node in the middle of a tetrahedron? (kept out: coordinates must stay integers)
    perm = list(range(1, len(nodes) + 1))
    rng.shuffle(perm)
    nn = [None] * len(nodes)
    for i, p in enumerate(nodes):
        nn[perm[i] - 1] = p
    nodes = nn
    for t in tets:
        t["q"] = [perm[i - 1] for i in t["q"]]
    rng.shuffle(tets)
    if rng.random() < 0.1:     # an element that is alone in its region
        rng.choice(tets)["r"] = names[-1]
    present = [x for x in names if any(t["r"] == x for t in tets)]
    rng.shuffle(present)
    vols = []
    for x in present:
        vols.append({"n": x, "ms": rng.choice([1, 2, 3]) if magnetic or rng.random() < 0.75 else 0, "ae": rng.randint(0, 3),
                     "k": rng.choice([0, 0, 1, -2, 3]) if aniso else 0, "uk": list(rng.choice(AXES)), "k3": rng.choice([0, 0, 0, 2, -1]) if aniso else 0})
    if all(v["ms"] == 0 for v in vols):
        vols[0]["ms"] = 2
    mesh = meshgen.Mesh(nodes, [(t["r"], tuple(i - 1 for i in t["q"])) for t in tets])
    known = {v["n"] for v in vols}
    cand = []
    inner = []
    for f, l in sorted(mesh.faces().items()):
        own = [tets[x[0]]["r"] for x in l if tets[x[0]]["r"] in known]
        if len(own) == 1 or len(own) == 2 and own[0] != own[1]:
            cand.append(list(f))
        elif len(own) == 2:
            inner.append(list(f))
    tris, surfs = [], []
    snames = rng.sample(SNAMES, rng.choice([0, 1, 1, 2, 3])) if surfaces else []
    frac = rng.choice([0.1, 0.5, 1.0])
    if snames:
        for f in cand:
            if rng.random() < frac:
                rng.shuffle(f)
                tris.append({"r": rng.choice(snames + ["ignored"]), "q": [i + 1 for i in f]})
    rng.shuffle(tris)
    for s in snames:
        if any(t["r"] == s for t in tris):
            surfs.append({"n": s, "sup": rng.random() < 0.3, "ks": rng.choice([0, 0, 1, -2]) if aniso else 0, "uk": list(rng.choice(AXES))})
    m = {"nodes": nodes, "tets": tets, "tris": tris, "vols": vols, "surfs": surfs,
         "dsurf": dict(copy.deepcopy(DSURF), ks=rng.choice([0, 0, 1]) if aniso else 0, sup=rng.random() < 0.1, uk=list(rng.choice(AXES)))}
    cs = Case(m, prop, rng)
    mutated = rng.random() < illegal
    if mutated:
        mutate(rng, m, inner, cand)
    cs.L = rng.choice([1e-9, 1e-9, 2.5e-9, 1e-8, 3e-10, 1e-7])
    cs.ms0, cs.a0, cs.k0, cs.b0 = rng.choice([8e5, 1e5, 1.4e6]), rng.choice([1e-11, 3e-12]), rng.choice([1e4, 7e5]), rng.choice([0.1, 1, 0.013])
    cs.t0 = rng.choice([0, 0, 0, 1e-9, 2.5e-10])
    cs.mscale = rng.choice([1, 1, 0.2, 10])
    rk = rng.choice(rules or ["const", "mod", "mod", "regions", "linear"])
    a = [rng.randint(-2, 3) for _ in range(3)]
    npal = rng.randint(2, 6)
    cs.rule = {"k": rk, "pal": [list(v) for v in rng.sample(TRIP, 1 if rk == "const" else npal)], "a": a, "d": rng.randint(0, 2), "names": [],
               "m": [[0, 0, 0]] * 3, "b": [0, 0, 0]}
    cs.mform = rng.choice(["list", "exprs", "fun", "reg"]) if rk == "const" else rng.choice(["fun", "reg"])
    if rk == "regions":
        cs.rule["names"] = [v["n"] for v in vols]
        rng.shuffle(cs.rule["names"])
        cs.rule["pal"] = [list(v) for v in rng.sample(TRIP, 2 ** len(vols))]
    if rk == "linear":
        cs.mform = rng.choice(["exprs", "fun"])
        while True:
            cs.rule["m"] = [[rng.randint(-2, 2) for _ in range(3)] for _ in range(3)]
            cs.rule["b"] = [rng.randint(-9, 9) for _ in range(3)]
            vals = [[sum(x * y for x, y in zip(row, p)) + b for row, b in zip(cs.rule["m"], cs.rule["b"])] for p in nodes]
            if all(any(v) for v in vals):
                break
        cs.rule["pal"] = []
    if aniso and rk != "const" and rng.random() < 0.7:
        for v in vols:
            v["k3"] = 0
    fk = rng.choice(fields) if not mutated else "uniform"
    cs.field = {"k": fk, "b": [rng.randint(-4, 4) for _ in range(3)], "amp": rng.choice([1, 2, -3]), "pal": [list(rng.choice(TRIP)) for _ in range(rng.randint(2, 5))],
                "a": [rng.randint(-2, 3) for _ in range(3)], "l": step, "m": [[0, 0, 0]] * 3}
    if fk == "linear":
        cs.field["m"] = [[rng.randint(-1, 1) for _ in range(3)] for _ in range(3)]
        big = max(abs(c) for p in nodes for c in p)
        if big > 20:
            cs.field["m"] = [[rng.choice([0, 0, 0, 1]) for _ in range(3)] for _ in range(3)]
        cs.field["amp"] = 1
    cs.fform = rng.choice(["list", "exprs", "fun", "list"])
    cs.columns = list(COLS)
    rng.shuffle(cs.columns)
    for v in vols:
        if rng.random() < 0.7:
            cs.columns.insert(rng.randrange(len(cs.columns)), v["n"] + ":" + rng.choice(REGCOLS))
    vo = list(dict.fromkeys(t["r"] for t in tets))
    so = list(dict.fromkeys(t["r"] for t in tris))
    rng.shuffle(vo)
    rng.shuffle(so)
    cs.orders = (vo, so)
    return cs


def mutate(rng, m, inner, cand):
    """Makes the mesh wrong in one place (most of the time)."""
    k = rng.choice(["dup", "inner", "orphan", "third", "region", "surface", "flat", "dupdiff", "bridge"])
    tets, tris = m["tets"], m["tris"]
    surf = m["surfs"][0]["n"] if m["surfs"] else None
    if k in ("dup", "inner", "orphan", "dupdiff") and surf is None:
        surf = "S"
        m["surfs"].append({"n": "S", "sup": False, "ks": 0, "uk": [5, 0, 0]})
        f = rng.choice(cand)
        tris[:] = [{"r": "S", "q": [i + 1 for i in f]}]
    known = [t for t in tris if any(s["n"] == t["r"] for s in m["surfs"])]
    if k == "dup":
        t = copy.deepcopy(rng.choice(known))
        rng.shuffle(t["q"])
        tris.insert(rng.randrange(len(tris) + 1), t)
    elif k == "dupdiff":
        t = copy.deepcopy(rng.choice(known))
        rng.shuffle(t["q"])
        t["r"] = "other surf"
        tris.append(t)
        m["surfs"].append({"n": "other surf", "sup": True, "ks": 0, "uk": [5, 0, 0]})
    elif k == "inner" and inner:
        q = [i + 1 for i in rng.choice(inner)]
        rng.shuffle(q)
        tris.insert(rng.randrange(len(tris) + 1), {"r": surf, "q": q})
    elif k == "orphan":
        fs = {frozenset(f) for t in tets for f in ((t["q"][0], t["q"][1], t["q"][2]), (t["q"][0], t["q"][1], t["q"][3]),
                                                   (t["q"][0], t["q"][2], t["q"][3]), (t["q"][1], t["q"][2], t["q"][3]))}
        for _ in range(50):
            q = rng.sample(range(1, len(m["nodes"]) + 1), 3)
            p = [m["nodes"][i - 1] for i in q]
            u, v = [[p[a][c] - p[0][c] for c in range(3)] for a in (1, 2)]
            cr = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
            if frozenset(q) not in fs and any(cr):
                tris.insert(rng.randrange(len(tris) + 1), {"r": surf, "q": q})
                break
    elif k == "third":
        for _ in range(200):
            t = rng.choice(tets)
            o = rng.randint(1, len(m["nodes"]))
            q = rng.sample(t["q"], 3)
            if o not in t["q"] and det6(m["nodes"], [i - 1 for i in q + [o]]):
                tets.insert(rng.randrange(len(tets) + 1), {"r": rng.choice(tets)["r"], "q": q + [o]})
                break
    elif k == "bridge":
        t = copy.deepcopy(rng.choice(tets))
        rng.shuffle(t["q"])
        t["r"] = rng.choice(tets)["r"]
        tets.insert(rng.randrange(len(tets) + 1), t)
    elif k == "region":
        m["vols"].insert(rng.randrange(len(m["vols"]) + 1), {"n": "missing", "ms": 1, "ae": 0, "k": 0, "uk": [5, 0, 0], "k3": 0})
    elif k == "surface":
        m["surfs"].append({"n": "missing", "sup": False, "ks": 0, "uk": [5, 0, 0]})
    elif k == "flat":
        z = {}
        for i, p in enumerate(m["nodes"]):
            for c in range(3):
                z.setdefault((c, p[c]), []).append(i + 1)
        l = [x for x in z.values() if len(x) >= 4]
        if rng.random() < 0.5:  # in any plane
            a, b, c = rng.sample(range(len(m["nodes"])), 3)
            P = m["nodes"]
            s, t = rng.choice([(1, 1), (1, -1), (2, -1), (1, 2), (3, -2)])
            m["nodes"].append([P[a][k] + s * (P[b][k] - P[a][k]) + t * (P[c][k] - P[a][k]) for k in range(3)])
            l = [[a + 1, b + 1, c + 1, len(m["nodes"])]]
        tets.insert(rng.randrange(len(tets) + 1), {"r": m["vols"][0]["n"], "q": rng.sample(rng.choice(l), 4)})


BROKEN = ["missing", "empty", "no tetrahedron", "hexahedron", "quadrangle", "truncated", "not a mesh", "only triangles", "directory"]


def damage(path, how, rng):
    text = open(path).read()
    if how == "missing":
        os.remove(path)
        return
    if how == "directory":
        os.remove(path)
        os.mkdir(path)
        return
    head, el = text.split("$Elements\n")
    lines = el.split("\n")
    lines = lines[1:lines.index("$EndElements")]
    nn = int(head.split("$Nodes\n")[1].split("\n")[0])
    if how == "empty":
        text = ""
    elif how == "not a mesh":
        text = "outputs:\n  directory: x\n"
    elif how == "truncated":
        text = text[:rng.randrange(20, len(head) - 20)]
    else:
        tris = [l for l in lines if l.split()[1] == "2"]
        tets = [l for l in lines if l.split()[1] == "4"]
        if how in ("no tetrahedron", "only triangles"):
            lines = tris if how == "only triangles" and tris else ["1 15 2 1 1 1"]
        elif how == "hexahedron":
            f = tets[0].split()
            q = [str(x) for x in rng.sample(range(1, nn + 1), 8)]
            lines.append(" ".join([str(len(lines) + 1), "5", "2", f[3], f[4]] + q))
        elif how == "quadrangle":
            f = (tris or tets)[0].split()
            q = [str(x) for x in rng.sample(range(1, nn + 1), 4)]
            lines.append(" ".join([str(len(lines) + 1), "3", "2", f[3] if tris else "77", f[4] if tris else "77"] + q))
        text = head + "$Elements\n%d\n" % len(lines) + "\n".join(lines) + "\n$EndElements\n"
    open(path, "w").write(text)


MC_CFG = """CONSTANTS
 Emit = %s
 MaxTris = %d
SPECIFICATION Spec
INVARIANTS CompleteLegal Neutral FlipJump Uncovered GradSum
CHECK_DEADLOCK FALSE
"""


def enumerate_meshes(scratch, maxtris, emit=True):
    r = vf.model_check("MeshMC", MC_CFG % (str(emit).upper(), maxtris), scratch)
    cs = []
    for mm in re.finditer(r'^"CASE (.*)"$', r.out, re.M):
        cs.append(json.loads(json.loads('"' + mm.group(1) + '"')))
    cs.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return r, cs


def campaign(prop, cases, exe, scratch, ck, labels=None):
    """Runs the cases, validates them and reports the broken requirements whose label begins with
    one of `labels`."""
    labels = labels or (prop + ".",)
    d = os.path.join(scratch, "runs")

    def one(a):
        i, c = a
        w = os.path.join(d, "%d" % i)
        t = c.trace(exe, w)
        import shutil
        shutil.rmtree(w, ignore_errors=True)
        return t
    tr = vf.pmap(one, list(enumerate(cases)))
    named = any(t["created"] for t in tr)     # the program says which regions it makes
    for t in tr:
        t["named"] = named
    bad, r = timeloop.validate(tr, scratch, "MeshTrace", timeout=800)
    n = 0
    for c, t, b in zip(cases, tr, bad):
        b = sorted(x for x in b if x.startswith(tuple(labels)))
        if b:
            n += 1
            ck.violation("%s (status %s)" % (", ".join(b), t["rc"]), {"case": c.describe(), "settings": c.settings(), "output": c.out, "labels": b})
    ck.add(runs=len(tr), trace_states=r.distinct, accepted=sum(1 for t in tr if t["rc"] == 0), refused=sum(1 for t in tr if t["rc"] != 0))
    return tr, bad


# ------------------------------------------------------------------ later rows
class Rows:
    """A short dynamic run, one integration step per row, each row checked against the snapshots."""

    def __init__(self, rng, prop, steps=4, sub=1):
        self.sub = sub   # integration steps per row, at least
        self.case = c = random_case(rng, prop, rules=["mod", "regions", "const"], fields=("uniform", "cells", "linear"))
        c.L = rng.choice([1e-9, 3e-9, 1e-8])
        c.t0 = rng.choice([0, 0, 1e-9])
        self.dt = rng.choice([1e-13, 3e-14])
        self.steps = steps
        self.many = rng.random() < 0.3
        if sub > 1:
            self.dt, self.many = sub * rng.choice([1e-15, 2e-15]), True
        self.rng = rng
        self.verbose = rng.random() < 0.5
        w = rng.choice([1e12, 3e12])
        if c.field["k"] == "uniform":
            b = [x * c.b0 for x in c.field["b"]]
            self.bext = rng.choice([["%r*Math.sin(%r*t+1)" % (x, w) for x in b],
                                    "function(t) { var s = Math.cos(%r*t); return [%r*s, %r, %r*s]; }" % (w, b[0], b[1], b[2])])
        else:
            self.bext = dict(c.field_setting(), time="function(t) { return %r*Math.cos(%r*t); }" % (c.b0, w))

    def describe(self):
        return dict(self.case.describe(), dt=self.dt, bext=self.bext, many=self.many)

    def settings(self):
        s = self.case.settings()
        t0, dt = float(self.case.t0), self.dt
        s["outputs"].update({"evol_time_step": dt, "final_time": t0 + self.steps * dt, "evol_columns": list(self.case.columns)})
        s["Bext"] = self.bext
        s["time_integration"] = {"min(dt)": dt / self.sub / 1000 if self.many else dt, "max(dt)": dt / self.sub, "max(du)": 0.02 if self.many else 0.5}
        return s

    def trace(self, exe, d):
        c = self.case
        os.makedirs(d, exist_ok=True)
        c.write_mesh(os.path.join(d, "mesh.msh"))
        s = self.settings()
        r = feel.Run(exe, d, s, args=["-v"], timeout=120)
        if r.rc is None:
            raise vf.CheckError("the program did not end within 120 s on a small mesh")
        ev = feel.read_evol(r.path("out", "m.evol"))
        rows = []
        m = c.m
        known = {v["n"]: v["ms"] for v in m["vols"]}
        magn = {i for t in m["tets"] if known.get(t["r"], 0) > 0 for i in t["q"]}
        prev = None
        cols = c.columns
        self.out = {"rc": r.rc, "rows": ev[2] if ev else None, "err": r.err[-300:]}
        steps = {}
        for x in re.finditer(r"evol step = (\d+),.*\n(?!.*RETRY)", r.out):
            steps[int(x.group(1))] = steps.get(int(x.group(1)), 0) + 1
        for k, row in enumerate(ev[2] if ev else []):
            sol = feel.read_sol(r.path("out", "m_iter%d.sol" % k))
            if sol is None or len(row) != len(cols):
                break
            vals = {}
            for col, x in zip(cols, row):
                vals[col] = float(x)
            u = [v[:3] for _, v in sol["rows"]]
            w = [[0, 0, 0] for _ in u]
            one = prev is not None and not self.many and steps.get(k, 0) == 1
            if one:
                for i in range(len(u)):
                    if i + 1 in magn:
                        dot = sum(a * b for a, b in zip(u[i], prev["u"][i]))
                        w[i] = [sc(2e4 * (a / dot - b)) for a, b in zip(u[i], prev["u"][i])]
            dtrow = vals["t"] - prev["t"] if prev else 0
            vel = []
            if one:
                for col in cols:
                    reg, name = col.rsplit(":", 1) if ":" in col else ("", col)
                    if name.startswith("<dM"):
                        vel.append({"c": name, "r": reg, "v": sc(2e4 * dtrow * vals[col])})
            one = one and self.sub == 1
            rows.append({"one": one, "w": w, "vel": vel, "dm": sc(2e4 * vals["max_dm"]) if one else 0,
                         "dt": not one or abs(vals["dt"] - dtrow) <= 1e-6 * self.dt,
                         "same": self.restart(exe, d, k, vals, s) if k == self.steps or k == 1 else [],
                         "norm": all(abs(sum(a * a for a in u[i]) - 1) < 2e-7 for i in range(len(u)) if i + 1 in magn),
                         "nans": all(math.isnan(a) for i in range(len(u)) if i + 1 not in magn for a in u[i])})
            prev = {"u": u, "t": vals["t"]}
        return {"m": m, "prop": c.prop, "rows": rows, "slack": 0}

    def restart(self, exe, d, k, vals, s):
        s = json.loads(json.dumps(s))
        s["initial_magnetization"] = "out/m_iter%d.sol" % k
        s["initial_time"] = vals["t"]
        s["outputs"].update({"directory": "again%d" % k, "final_time": vals["t"]})
        r = feel.Run(exe, d, s, args=[], timeout=120, name="again%d.yml" % k)
        ev = feel.read_evol(r.path("again%d" % k, "m.evol"))
        if r.rc != 0 or not ev or not ev[2]:
            return [{"c": "restart", "a": 1, "b": 0, "tol": 0}]
        got = dict(zip(self.case.columns, map(float, ev[2][0])))
        scale = max([abs(vals[e]) for e in vals if e.startswith("E_") and math.isfinite(vals[e])] + [1e-40])
        out = []
        for col in self.case.columns:
            name = col.rsplit(":", 1)[-1]
            a, b = vals[col], got[col]
            if name in ("dt", "max_dm", "iter") or name.startswith("<dM"):
                continue
            if math.isnan(a) and math.isnan(b):
                continue
            if name.startswith("E_"):
                f, tol = 1e8 / scale, 2000
            elif name == "max_angle":
                a, b = math.cos(a), math.cos(b)
                f, tol = 1e8, 200
            elif name == "Thiele_length":
                zs = [p[2] for p in self.case.m["nodes"]]
                f, tol = 1e6 / ((max(zs) - min(zs)) * self.case.L), 0
                if not (a * f < 1e9):
                    continue
                tol = int(10 + abs(a * f) / 1000)
            elif name == "t":
                f, tol = 1e6 / self.dt, 1
                b -= a
                a = 0
            elif name.startswith("H"):
                f, tol = 1.0, 2
            else:
                f, tol = 1e8, 50
            out.append({"c": name, "a": sc(a * f), "b": sc(b * f), "tol": tol})
        return out


def rows_campaign(prop, runs, exe, scratch, ck, labels):
    d = os.path.join(scratch, "rows")
    tr = vf.pmap(lambda a: a[1].trace(exe, os.path.join(d, str(a[0]))), list(enumerate(runs)))
    bad, r = timeloop.validate(tr, scratch, "RowTrace", timeout=800)
    for c, t, b in zip(runs, tr, bad):
        b = sorted(x for x in b if x.startswith(tuple(labels)))
        if b:
            ck.violation(", ".join(b), {"case": c.describe(), "settings": c.settings(), "output": c.out, "labels": b})
    ck.add(dynamic_runs=len(tr), rows=sum(len(t["rows"]) for t in tr), single_steps=sum(1 for t in tr for x in t["rows"] if x["one"]),
           restarts=sum(1 for t in tr for x in t["rows"] if x["same"]), row_states=r.distinct)
    return tr, bad
