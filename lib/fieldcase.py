"""Dynamic runs in fields that vary in space (FieldTrace)."""
import json, math, os
import vf, feel, meshgen, timeloop
from meshcase import TRIP, sc


def snaps(r, name="m", d="out"):
    out = []
    k = 0
    ev = feel.read_evol(r.path(d, name + ".evol"))
    while True:
        s = feel.read_sol(r.path(d, "%s_iter%d.sol" % (name, k)))
        if s is None:
            break
        rows = [[sc(1e6 * c) if math.isfinite(c) else 7 for c in v[:3]] for _, v in s["rows"]]
        if ev and k < len(ev[2]):
            scale = 1
            vals = [float(x) for x in ev[2][k]]
            rows.append([sc(1e6 * x) for x in vals[:3]])
            rows.append([sc(1e18 * x) if math.isfinite(x) else 3 for x in vals[3:]])
        out.append(rows)
        k += 1
    return out


def base(mesh, mag, bext, dt, steps, regions, L=1e-9, t0=0.0, cols=("<Mx>", "<My>", "<Mz>", "E_zeeman", "E_tot")):
    return {"outputs": {"directory": "out", "file_basename": "m", "evol_time_step": dt, "final_time": t0 + steps * dt, "evol_columns": list(cols), "mag_config_every": 1},
            "mesh": {"filename": mesh, "length_unit": L, "volume_regions": regions},
            "initial_time": t0, "initial_magnetization": mag, "Bext": bext,
            "time_integration": {"min(dt)": dt, "max(dt)": dt, "max(du)": 0.9},
            "finite_element_solver": {"nb_threads": 1, "tolerance": 1e-10, "max(iter)": 1000}, "demagnetizing_field_solver": {"nb_threads": 1}}


class Blocks:
    def __init__(self, rng):
        self.rng = rng
        self.n = rng.randint(2, 4)
        cells = [(i, j, k) for i in range(-2, 3) for j in range(-2, 3) for k in range(-2, 3)]
        self.cells = []
        while len(self.cells) < self.n:
            c = rng.choice(cells)
            if all(max(abs(a - b) for a, b in zip(c, x)) >= 2 for x in self.cells):
                self.cells.append(c)
        self.a = [rng.randint(-2, 3) for _ in range(3)]
        self.pal = [list(rng.choice(TRIP)) for _ in range(rng.randint(2, 5))]
        self.size = rng.choice([4, 10])
        self.dt = rng.choice([1e-13, 2e-13])
        self.w = rng.choice([0, 1e12])
        self.b0 = rng.choice([0.05, 0.2])
        self.m0 = list(rng.choice(TRIP))
        self.sub = [tuple(rng.choice([1, 1, 2]) for _ in range(3)) for _ in range(self.n)]
        self.alpha = [rng.choice([0.05, 0.5]) for _ in range(self.n)]
        self.dead = rng.random() < 0.3     # one of the bodies is not magnetic
        self.shuffle = rng.random() < 0.7

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k != "rng"}

    def trace(self, exe, d):
        L, s = 1e-9, self.size
        os.makedirs(d, exist_ok=True)
        nodes, tets, place = [], [], []
        blocks = []
        for b, c in enumerate(self.cells):
            m = meshgen.box(self.sub[b], (s - 2.0,) * 3, tuple(s * x + 1.0 for x in c), region=lambda x, y, z, b=b: "R%d" % b)
            blocks.append(m)
            place.append([len(nodes) + i for i in range(len(m.nodes))])
            tets += [(r, tuple(i + len(nodes) for i in q)) for r, q in m.tets]
            nodes += m.nodes
        full = meshgen.Mesh(nodes, tets)
        rng = self.rng
        if self.shuffle:
            perm = list(range(len(nodes)))
            rng.shuffle(perm)
            full = full.permuted(perm)
            rng.shuffle(full.tets)
            place = [[perm[i] for i in p] for p in place]
        full.write(os.path.join(d, "mesh.msh"))
        dead = self.n - 1 if self.dead else -1
        regs = {"R%d" % b: {"Ms": 0 if b == dead else 1.0, "Ae": 0, "alpha_LLG": self.alpha[b]} for b in range(self.n)}
        order = list(regs)
        rng.shuffle(order)
        space = "function(x, y, z) { var i = Math.floor(x/%r), j = Math.floor(y/%r), k = Math.floor(z/%r), p = %s, n = p.length; i = (%d)*i + (%d)*j + (%d)*k; return p[((i %% n) + n) %% n]; }" % (
            s * L, s * L, s * L, json.dumps(self.pal), *self.a)
        st = base("mesh.msh", [float(x) for x in self.m0], {"space": space, "time": "function(t) { return %r*Math.cos(%r*t); }" % (self.b0, self.w)},
                  self.dt, 5, {k: regs[k] for k in order})
        r = feel.Run(exe, d, st, timeout=120)
        alls = snaps(r)
        self.out = {"rc": r.rc, "err": r.err[-300:]}
        alone, pl, cl = [], [], []
        for b in range(self.n):
            if b == dead:
                continue
            blocks[b].write(os.path.join(d, "b%d.msh" % b))
            i = sum(x * y for x, y in zip(self.a, self.cells[b])) % len(self.pal)
            f = self.pal[i]
            st = base("b%d.msh" % b, [float(x) for x in self.m0], ["%r*Math.cos(%r*t)" % (self.b0 * x, self.w) for x in f], self.dt, 5, {"R%d" % b: regs["R%d" % b]})
            st["outputs"]["directory"] = "b%d" % b
            rb = feel.Run(exe, d, st, timeout=120, name="b%d.yml" % b)
            alone.append({"field": f, "run": [x[:len(blocks[b].nodes)] for x in snaps(rb, d="b%d" % b)]})
            pl.append([i + 1 for i in place[b]])
            cl.append(list(self.cells[b]))
        return {"kind": "blocks", "all": [x[:len(nodes)] for x in alls], "alone": alone, "place": pl, "cell": cl, "a": self.a, "pal": self.pal, "tol": 60}


class Same:
    """The same field, written in two ways."""

    def __init__(self, rng):
        self.rng = rng
        self.kind = rng.choice(["const", "split", "axes"])
        self.n = rng.choice([(1, 1, 1), (2, 1, 1), (1, 2, 2), (3, 1, 1)])
        self.b = [rng.uniform(-1, 1) for _ in range(3)]
        self.w = rng.choice([0, 1e12, 4e12])
        self.k = rng.choice([2.0, 0.25, -4.0])
        self.m0 = list(rng.choice(TRIP))
        self.dt = rng.choice([5e-14, 1e-13])
        self.t0 = rng.choice([0.0, 1e-10])
        self.regs = rng.random() < 0.5

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k != "rng"}

    def trace(self, exe, d):
        os.makedirs(d, exist_ok=True)
        l = tuple(6.0 * x for x in self.n)
        m = meshgen.box(self.n, l, region=(lambda x, y, z: "A" if x < l[0] / 2 else "B") if self.regs and self.n[0] > 1 else (lambda x, y, z: "A"))
        m.write(os.path.join(d, "mesh.msh"))
        regs = {r: {"Ms": 8e5, "Ae": 1e-11, "alpha_LLG": 0.3} for r in sorted({r for r, _ in m.tets})}
        b, w = self.b, self.w
        tm = "function(t) { return Math.cos(%r*t); }" % w
        if self.kind == "const":
            f1 = {"space": "function(x,y,z) { return %s; }" % json.dumps(b), "time": tm}
            f2 = self.rng.choice([["%r*Math.cos(%r*t)" % (x, w) for x in b], "function(t) { var c = Math.cos(%r*t); return [%r*c, %r*c, %r*c]; }" % (w, *b)])
        else:
            sp = "function(x,y,z) { return [%r*x/1e-8 + %r, %r*y/1e-8, %r*Math.sin(z/1e-8)]; }"
            v = (b[0], b[1], b[2], b[0])
            f1 = {"space": sp % v, "time": tm}
            if self.kind == "split":
                f2 = {"space": sp % tuple(x * self.k for x in v), "time": "function(t) { return Math.cos(%r*t)/%r; }" % (w, self.k)}
            else:
                f2 = {"space": ("function(a,b,c) { var e = a/1e-8; return [%r*e + %r, b*%r/1e-8, Math.sin(c/1e-8)*%r]; }" % v),
                      "time": "function(time)\n{\n return Math.cos(%r*time);\n}" % w}
        runs = []
        for i, f in enumerate((f1, f2)):
            st = base("mesh.msh", [float(x) for x in self.m0], f, self.dt, 5, regs, t0=self.t0)
            st["outputs"]["directory"] = "o%d" % i
            r = feel.Run(exe, d, st, timeout=120, name="s%d.yml" % i, args=["--seed", "1"])
            runs.append(snaps(r, d="o%d" % i))
        self.out = {"rc": r.rc, "err": r.err[-300:]}
        return {"kind": "same", "all": runs[0], "other": runs[1], "tol": 30, "a": [0, 0, 0], "pal": [[0, 0, 0]], "place": [], "alone": [], "cell": []}


def campaign(runs, exe, scratch, ck):
    d = os.path.join(scratch, "field")
    tr = vf.pmap(lambda a: a[1].trace(exe, os.path.join(d, str(a[0]))), list(enumerate(runs)))
    bad, r = timeloop.validate(tr, scratch, "FieldTrace", timeout=800)
    for c, b in zip(runs, bad):
        if b:
            ck.violation(", ".join(sorted(b)), {"case": c.describe(), "output": c.out})
    ck.add(dynamic_pairs=len(tr), snapshots=sum(len(t["all"]) for t in tr), field_states=r.distinct)
    return tr, bad
