"""The time loop: scripts enumerated by TLC from TimeLoopMC, replayed through the real program with
the linear solve wrapped; recorded runs validated by TLC against TimeLoop (TimeLoopTrace)."""
import json, math, os, random, re, shutil
import vf, feel, meshgen

DUMAX = 0.02
OUTS = [("ok", 3, 10), ("ok", 99, 100), ("fast", 3, 2), ("fast", 20, 1), ("fail", 1, 1)]


def configs():
    """Configurations in ticks of dtmin/10."""
    out = []
    for i, (step, k, dm, p) in enumerate([
            (25, 2, 40, 1), (29, 3, 40, 2), (100, 2, 40, 1), (31, 2, 90, 0), (40, 3, 160, 2), (200, 1, 160, 3),
            (10, 3, 90, 1), (20, 2, 10, 1), (45, 2, 23, 0), (60, 4, 640, 4), (1000, 1, 1440, 1), (55, 0, 90, 1)]):
        out.append(dict(name="c%d" % i, step=step, K=k, dtmin=10, dtmax=dm, period=p,
                        init=int(math.sqrt(10 * dm))))
    return out


def tla_cfgs(cs):
    return "{" + ",\n".join(
        "[name |-> \"%s\", t0 |-> 0, step |-> %d, K |-> %d, dtmin |-> %d, dtmax |-> %d, period |-> %d, tol |-> 0, init |-> %d]"
        % (c["name"], c["step"], c["K"], c["dtmin"], c["dtmax"], c["period"], c["init"]) for c in cs) + "}"


MC = """---- MODULE MCtl ----
EXTENDS TimeLoopMC
McCfgs == %s
McOuts == {%s}
====
"""
CFG = """CONSTANTS
 Cfgs <- McCfgs
 Outs <- McOuts
 MaxScript = %d
 Signals = %s
 Emit = %s
SPECIFICATION Spec
INVARIANTS TypeOK GridInv NeverBeyond AccInv StepInv AbortInv SnapInv SigInv SigStops DoneInv OkDone EmitInv
%s
"""


def outs_tla(os_):
    return ", ".join('[o |-> "%s", num |-> %d, den |-> %d]' % o for o in os_)


def explore(scratch, depth, signals, emit=True):
    """Model checking of the algorithm; returns (TLC result, scripts)."""
    r = vf.model_check("MCtl", CFG % (depth, str(signals).upper(), str(emit).upper(), "" if emit else "PROPERTY Terminates"),
                       scratch, files=[("MCtl.tla", MC % (tla_cfgs(configs()), outs_tla(OUTS)))])
    scripts = []
    for m in re.finditer(r'"SCRIPT <<\\"(\w+)\\", \\"(\w+)\\", (-?\d+), \\"(\w+)\\", (.*?)>>"\n', r.out):
        outs = re.findall(r'<<\\"(\w+)\\", (\d+), (\d+)>>', m.group(5))
        scripts.append(dict(cfg=m.group(1), phase=m.group(2), sign=int(m.group(3)), where=m.group(4),
                            outs=[(o, int(a), int(b)) for o, a, b in outs]))
    scripts.sort(key=lambda s: json.dumps(s))
    return r, scripts


def model_termination(scratch):
    cs = [c for c in configs()]
    small = "{x \\in {[name |-> \"a\", t0 |-> 5, step |-> st, K |-> k, dtmin |-> 10, dtmax |-> dm, period |-> p, tol |-> 0, init |-> i] : " \
            "st \\in {10,20,24,25,29,31,45,100}, k \\in {0,2}, dm \\in {10,20,35,80}, p \\in {0,2}, i \\in {10,14,22,26,40}} : x.init <= x.dtmax}"
    return vf.model_check("MCtl", CFG % (4 if vf.thorough() else 3, "TRUE", "FALSE", "PROPERTY Terminates"), scratch,
                          files=[("MCtl.tla", MC % (small, outs_tla(OUTS[:3] + OUTS[4:])))])


# ------------------------------------------------------------------ scenarios
class Scen:
    """One run: configuration in SI units, script lines, settings."""

    def __init__(self, **kw):
        self.__dict__.update(dict(t0=0.0, mesh=0, script=None, phase=None, extra={}, seed=1, physics=False,
                                  blind=False, calm=False, name="m", outdir="out", columns=None), **kw)

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k not in ("columns",)}


def scen_from_script(s, cs, rng):
    c = cs[s["cfg"]]
    u = rng.choice([1e-15, 3.7e-15, 1e-17, 2.3e-14]) / 10
    lines = []
    acc = 0
    sigs = {}
    n = s["sign"]
    extra = []
    sig = rng.choice([2, 15])
    if n >= 0:
        prev_ok = n == 0 or (n <= len(s["outs"]) and s["outs"][n - 1][0] == "ok")
        oks = sum(1 for o in s["outs"][:n] if o[0] == "ok")
        if s["where"] == "solve":
            sigs[n] = (sig, rng.choice("bad"))
        elif prev_ok:
            if rng.random() < 0.7 or not c["period"]:
                extra.append("X %d %d" % (2 * oks + rng.choice([1, 2]), sig))
            else:
                extra.append("S %d %d" % (rng.randint(1, 3), sig))
        else:
            sigs[n - 1] = (sig, "a")
    for i, (o, a, b) in enumerate(s["outs"]):
        if i > 40:
            break
        sg = sigs.get(i, (0, "a"))
        lines.append("%s %.17g %d %s" % ("F" if o == "fail" else "O", a / b, sg[0], sg[1]))
    return Scen(step=c["step"] * u, K=c["K"], dtmin=c["dtmin"] * u, dtmax=c["dtmax"] * u, period=c["period"],
                script=lines + extra, phase=s["phase"], mesh=rng.randint(0, 3), seed=rng.randint(1, 10 ** 6),
                t0=rng.choice([0, 0, 0, 7 * c["step"] * u, 1e4 * c["step"] * u]), cfg=s["cfg"],
                name=rng.choice(["m", "m", "sim.x", "a b"]), outdir=rng.choice(["out", "out", "o/", "."]))


def random_scen(rng, physics=False, signals=True):
    u = 10 ** rng.uniform(-17, -14)
    dtmin = u
    ratio = rng.choice([1, 1.5, 4, 10, 100, 1e4])
    dtmax = u * ratio
    K = rng.choice([0, 1, 2, 3, 5, 8, 12, 25])
    step = dtmin * rng.choice([1, 1.3, 2, 2.5, 2.9, 3, 3.7, 5, 10, 33.3, 100, 1000])
    if step / dtmax > 60:
        dtmax = step / 20
    lines = None
    if not physics:
        lines = []
        pbad = rng.choice([0, 0.1, 0.3, 0.6])
        for i in range(rng.randint(0, 30)):
            if rng.random() < pbad:
                lines.append(rng.choice(["F 0 0 a", "O %.3f 0 a" % rng.uniform(1.01, 3), "O %.3f 0 a" % rng.uniform(3, 50)]))
            else:
                lines.append("O %.3f 0 a" % rng.choice([rng.uniform(0.01, 0.5), rng.uniform(0.5, 0.999)]))
        if signals and rng.random() < 0.5:
            w = rng.random()
            sg = rng.choice([2, 15])
            if w < 0.6 and lines:
                i = rng.randrange(len(lines))
                f = lines[i].split()
                lines[i] = "%s %s %d %s" % (f[0], f[1], sg, rng.choice("abd"))
            elif w < 0.85:
                lines.append("X %d %d" % (rng.randint(1, 20), sg))
            else:
                lines.append("S %d %d" % (rng.randint(1, 4), sg))
    return Scen(step=step, K=K, dtmin=dtmin, dtmax=dtmax, period=rng.choice([0, 1, 1, 2, 3, 5, 100]), script=lines,
                mesh=rng.randint(0, 3), seed=rng.randint(1, 10 ** 6), physics=physics, cfg="random",
                t0=rng.choice([0, 0, -3 * step, 13 * step, 1e5 * step]),
                name=rng.choice(["m", "m", "sim.x", "a b"]), outdir=rng.choice(["out", "out", "o/", "."]))


def storm_scen(rng):
    """Long runs of rejected or failed attempts, with a wide range of steps."""
    s = random_scen(rng, signals=False)
    s.cfg = "storm"
    s.dtmin = 10 ** rng.uniform(-17, -15)
    s.dtmax = s.dtmin * rng.choice([1e3, 1e4, 5e4])
    s.step = s.dtmax * rng.choice([0.02, 0.1, 0.3, 1, 1.7])
    s.K = rng.choice([1, 2])
    s.t0 = rng.choice([0, 3 * s.step])
    s.script = []
    for b in range(rng.randint(1, 4)):
        s.script += ["O %.3f 0 a" % rng.uniform(0.05, 0.4)] * rng.randint(0, 6)
        kind = rng.choice(["F", "O", "FO"])
        for i in range(rng.randint(2, 14)):
            s.script.append("F 0 0 a" if rng.choice(kind) == "F" else "O %.3f 0 a" % rng.choice([1.001, 1.05, 1.2, 1.5]))
    if rng.random() < 0.4:
        i = rng.randrange(len(s.script))
        f = s.script[i].split()
        s.script[i] = "%s %s %d %s" % (f[0], f[1], rng.choice([2, 15]), rng.choice("abd"))
    s.script += ["O 0.05 0 a"] * 60
    return s


def physics_scen(rng):
    """Real solves: strong fields make the magnetization move fast, so that steps get rejected."""
    step = 10 ** rng.uniform(-14, -12.3)
    s = random_scen(rng, physics=True)
    s.step, s.K = step, rng.choice([1, 2, 3])
    s.dtmin = step / rng.choice([1, 2.6, 10, 50])
    s.dtmax = s.dtmin * rng.choice([1, 4, 20, 200])
    if s.step / s.dtmax > 30:
        s.dtmax = s.step / 10
    s.t0 = rng.choice([0, 5 * step])
    b = 10 ** rng.uniform(-1, 3)
    s.extra = {"Bext": ["%g*Math.cos(t*%g)" % (b, rng.uniform(0.1, 3) / step), "0", "%g" % (b * rng.random())],
               "initial_magnetization": [str(rng.uniform(-1, 1)), "x*1e8", str(rng.uniform(-1, 1))],
               "finite_element_solver": {"tolerance": rng.choice([1e-6, 1e-9]), "max(iter)": rng.choice([700, 700, 3])}}
    if rng.random() < 0.3:
        sg = rng.choice([2, 15])
        s.script = ["R 0 0 a"] * rng.randint(0, 4) + ["R 0 %d %s" % (sg, rng.choice("abd"))] + ["R 0 0 a"] * 400
    else:
        s.script = ["R 0 0 a"] * 400
    return s


def lone_scens(rng, n):
    """Real solves in which a single node moves, too fast for the step that is tried first."""
    out = []
    ids = [(k, i) for k in (0, 2) for i in range(len(mesh(k).nodes)) if k == 0 or mesh(2).nodes[i][2] < -19]
    rng.shuffle(ids)
    for k, i in (ids * (n // len(ids) + 1))[:n]:
        x = mesh(k).nodes[i]
        b = rng.choice([20., 50.])
        speed = 1.76e11 * b / 1.05
        step = DUMAX / speed * rng.uniform(1.3, 6)
        s = random_scen(rng, physics=True)
        s.mesh, s.step, s.K, s.t0, s.cfg = k + rng.choice([0, 1]), step, 2, 0, "lone"
        s.dtmin, s.dtmax = step / 100, step * 4
        s.extra = {"Bext": ["0", "0", repr(b)], "initial_magnetization":
                   "function(x,y,z) { var n = 1e-9, d = hypot(x - %r*n, y - %r*n, z - (%r)*n); return d < 1*n ? [1, 0, 0.1] : [0, 0, 1]; }" % x}
        s.script = ["R 0 0 a"] * 400
        out.append(s)
    return out


def long_scens(rng, n, k):
    """Many output times, nothing that moves fast; only the files are observed."""
    out = []
    for i in range(n):
        s = random_scen(rng, physics=True)
        s.step = rng.choice([1e-13, 7e-14, 3.3e-13, 1.1e-13]) * rng.choice([1, 1e-2])
        s.K, s.period, s.mesh, s.cfg, s.blind, s.calm = k, k // 3, 0, "long", True, True
        s.t0 = rng.choice([0, -11 * s.step, 1234.5 * s.step])
        s.dtmin = s.step / rng.choice([50, 7.3, 1000])
        s.dtmax = s.step * rng.choice([0.7, 3, 1, 0.45])
        s.extra = {"Bext": ["0", "0", repr(2e-3 / 1.76e11 / s.step)], "initial_magnetization": ["1", "0", "0.3"]}
        s.script = None
        out.append(s)
    return out


def start_scens(rng, n):
    """Output times on both sides of zero, reached by a single step: their differences are rounded."""
    out = long_scens(rng, n, 3)
    for s in out:
        s.t0 = -s.step * rng.random()
        s.dtmin, s.dtmax, s.period = 0.8 * s.step, 2 * s.step, 1
    return out


def meshes():
    a = meshgen.box((1, 1, 2), (10., 10., 20.))
    r = random.Random(7)
    p = list(range(len(a.nodes)))
    r.shuffle(p)
    c = meshgen.box((1, 1, 3), (10., 10., 30.), (-5., -5., -40.), region=lambda x, y, z: "A" if z < -20 else "N")
    q = list(range(len(c.nodes)))
    r.shuffle(q)
    return [a, a.permuted(p), c, c.permuted(q)]


MESHES = None


def mesh(i):
    global MESHES
    if MESHES is None:
        MESHES = meshes()
    return MESHES[i]


def vol6(m, q):
    a, b, c, d = (m.nodes[i] for i in q)
    u, v, w = ([y[k] - a[k] for k in range(3)] for y in (b, c, d))
    return abs(u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]))


def average(m, st, region=None):
    s, tot = [0, 0, 0], 0
    for r, q in m.tets:
        if r == "N" or (region and r != region):
            continue
        v = vol6(m, q)
        tot += v
        for k in range(3):
            s[k] += v * sum(st[3 * i + k] for i in q) / 4
    return [x / tot for x in s]


def max_angle(m, st):
    best = 1.0
    done = set()
    for r, q in m.tets:
        if r == "N":
            continue
        for i in q:
            for j in q:
                if i < j and (i, j) not in done:
                    done.add((i, j))
                    best = min(best, sum(st[3 * i + k] * st[3 * j + k] for k in range(3)))
    return math.degrees(math.acos(max(-1, min(1, best))))


class States:
    """Numbers configurations; equal numbers are equal configurations (within the rounding of the files)."""

    def __init__(self, m):
        self.m, self.l, self.avg = m, [], []

    def id(self, v, tol=3e-7, new=True):
        best = None
        for i, w in enumerate(self.l):
            if len(v) != len(w):
                continue
            dd = 0
            for a, b in zip(v, w):
                if (a is None) != (b is None):
                    dd = 9
                    break
                if a is not None:
                    dd = max(dd, abs(a - b))
            if dd <= tol and (best is None or dd < best[0]):
                best = (dd, i)
        if best:
            return best[1]
        if not new:
            return -1
        self.l.append(v)
        return len(self.l) - 1

    def by_average(self, a, tol=5e-9):
        best = None
        for i, w in enumerate(self.l):
            while len(self.avg) <= i:
                self.avg.append(average(self.m, [x if x is not None else 0 for x in self.l[len(self.avg)]]))
            d = max(abs(x - y) for x, y in zip(a, self.avg[i]))
            if d < tol and (best is None or d < best[0]):
                best = (d, i)
        return best[1] if best else -1


def moved(a, b):
    """Largest motion between two configurations, as the speed times the step (u + v*dt is normalized)."""
    best = 0
    for i in range(0, len(a), 3):
        if a[i] is None or b[i] is None:
            continue
        c = math.sqrt(sum((a[i + k] - b[i + k]) ** 2 for k in range(3)))
        best = max(best, math.tan(min(1.55, 2 * math.asin(min(1, c / 2)))))
    return best


def settings_of(s):
    d = {"outputs": {"directory": s.outdir, "file_basename": s.name, "evol_time_step": s.step,
                     "final_time": s.t0 + s.K * s.step, "mag_config_every": s.period if s.period else [False, 0, -1, -2, -7][s.seed % 5],
                     "evol_columns": s.columns or ["iter", "t", "dt", "max_dm", "<Mx>", "<My>", "<Mz>"]},
         "mesh": {"filename": "m.msh", "volume_regions": {"A": {"Ms": 8e5, "alpha_LLG": 0.3}, "N": {"Ms": 0}} if s.mesh >= 2
                  else {"A": {"Ms": 8e5, "alpha_LLG": 0.3}}},
         "initial_magnetization": ["0.3", "0.2+x*1e7", "1"],
         "time_integration": {"max(du)": DUMAX, "min(dt)": s.dtmin, "max(dt)": s.dtmax}}
    if s.t0:
        d["initial_time"] = s.t0
    for k, v in s.extra.items():
        d[k] = v
    return d


def run_scen(exe, s, d, timeout=40):
    """Runs a scenario; returns the trace (a dict for TLC) or None."""
    os.makedirs(d)
    m = mesh(s.mesh)
    m.write(os.path.join(d, "m.msh"))
    env = {} if s.calm else {"VF_LOG": os.path.join(d, "log"), "OMP_NUM_THREADS": "1",
           "VF_EVOL": os.path.join(d, s.outdir, s.name + ".evol"), "VF_OUTDIR": os.path.join(d, s.outdir)}
    if s.script is not None:
        open(os.path.join(d, "script"), "w").write("D %r\n" % DUMAX + "\n".join(s.script) + "\n")
        env["VF_SCRIPT"] = os.path.join(d, "script")
    r = feel.Run(exe, d, settings_of(s), args=["--seed", str(s.seed)], env=env, timeout=timeout)
    return to_trace(s, r, d, m), r


def to_trace(s, r, d, m):
    unit = max(s.dtmin / 10000, (s.K * s.step + s.dtmax) / 1.5e9)
    unit = s.step / max(1, int(s.step / unit))  # the output times are whole numbers of ticks
    tol = 60
    tick = lambda t: max(-2 * 10 ** 9, min(2 * 10 ** 9, int(round((t - s.t0) / unit)))) if math.isfinite(t) else 2 * 10 ** 9
    dtick = lambda x: max(-1, min(2 * 10 ** 9, int(round(x / unit)))) if math.isfinite(x) else 2 * 10 ** 9
    states = States(m)
    ev = []
    lp = os.path.join(d, "log")
    if os.path.exists(lp):
        for l in open(lp):
            try:
                ev.append(json.loads(l))
            except ValueError:
                pass
    att, before = [], 0
    for e in ev:
        if e["e"] == "sig":
            before = before or e["sig"]
        if e["e"] != "att":
            continue
        cur = states.id(e["cur"])
        err = bool(e["err"])
        du = e["du"]
        if not err:  # what really moved
            du2 = moved(e["cur"], e["next"])
            if abs(du2 / DUMAX - 1) > 1e-4:
                du = du2
        out = "fail" if err else ("fast" if du > DUMAX else "ok")
        lim = e["dt"] / 2 if err else (0.95 * DUMAX * e["dt"] / e["du"] if e["du"] > 0 else 1e9)
        att.append(dict(t=tick(e["t"]), dt=dtick(e["dt"]), rows=e["rows"], snaps=e["sols"], out=out, lim=max(0, int(min(lim, 1e9 * unit) / unit) - 1),
                        cur=cur, trial=states.id(e["next"]) if out != "fail" else cur, sig=e["sig"] or 0, before=before,
                        rdt=e["dt"], rdu=e["du"]))
        before = 0
    od = os.path.join(d, s.outdir)
    if att:
        init = att[0]["cur"]
    else:
        sol = feel.read_sol(os.path.join(od, s.name + "_iter0.sol"))
        init = states.id([None if math.isnan(x) else x for _, v in sol["rows"] for x in v[:3]]) if sol and sol["rows"] else 0
    # when only the files are observed, the snapshots define the configurations
    snaps, ex = [], dict(present=False, t=-1, st=-1, whole=False)
    for f in feel.ls(od):
        mm = re.fullmatch(re.escape(s.name) + r"_iter(-?\d+)\.sol", f)
        if mm or f == s.name + "_at_exit.sol":
            sol = feel.read_sol(os.path.join(od, f))
            st = -1
            whole = [i for i, _ in sol["rows"]] == list(range(len(m.nodes))) and all(len(v) == 4 for _, v in sol["rows"])
            if whole:
                st = states.id([None if math.isnan(x) else x for _, v in sol["rows"] for x in v[:3]], new=s.calm)
            x = dict(t=tick(sol["time"]) if sol["time"] is not None else -1, st=st, whole=whole)
            if mm:
                snaps.append(dict(n=int(mm.group(1)), **x))
            else:
                ex = dict(present=True, **x)
    ev_ = feel.read_evol(os.path.join(od, s.name + ".evol"))
    rows = []
    for k, f in enumerate(ev_[2] if ev_ else []):
        try:
            v = [float(x) for x in f]
            if len(v) != 7:
                raise ValueError
            exact = abs(v[1] - (s.t0 + k * s.step)) <= 2e-15 * abs(v[1]) + 5e-16 * (abs(s.t0) + k * s.step)
            st = states.by_average(v[4:7], 2e-7 if s.calm else 5e-9) if states.l else init
            rows.append(dict(iter=int(v[0]), t=tick(v[1]), exact=exact, st=st, rdt=v[2], rdm=v[3]))
        except ValueError:
            rows.append(dict(iter=-1, t=-1, exact=False, st=-1, rdt=0, rdm=0))
    how = {0: "done", 1: "abort"}.get(r.rc, "crash") if r.rc is not None else "hang"
    status = r.rc if r.rc is not None else -1
    if how == "abort" and "ABORTED" not in r.out and "FAILED" not in r.out:
        how = "crash"
    if r.rc in (-2, -15):
        how, status = "killed", -r.rc
    fin = dict(how=how, status=status, rows=rows, snaps=snaps, exit=ex, before=before)
    fin.update(stats_of(r.out, att, states, m))
    tmax = abs(s.t0) + s.K * s.step
    return dict(c=dict(t0=0, step=dtick(s.step), K=s.K, dtmin=dtick(s.dtmin), dtmax=dtick(s.dtmax), period=s.period, tol=tol,
                       init=dtick(math.sqrt(s.dtmin * s.dtmax)), soltol=int(min(1e9, 60 + 2e-6 * tmax / unit))),
                init=init, att=att, fin=fin, blind=bool(s.blind), calm=bool(s.calm))


def stats_of(out, att, states, m):
    g = re.search(r"successful\s+(\d+)(?:\s+(\S+) ± +(\S+)\s+(\S+) ± +(\S+))?", out)
    b = re.search(r"failed\s+(\d+)(?:\s+(\S+) ± +(\S+))?", out)
    a = re.search(r"Maximum magnetization angle: (\S+)°", out)
    if not (g and b and a):
        return dict(stats=False, good=0, bad=0, meansok=False)

    def ls(v):
        if not v:
            return None
        l = [math.log(x) if x > 0 else -math.inf for x in v]
        mu = sum(l) / len(l)
        if not math.isfinite(mu):
            return None
        return math.exp(mu), math.sqrt(sum((x - mu) ** 2 for x in l) / len(l))

    def same(mean, sd, v):
        x = ls(v)
        if x is None:
            return True
        return mean is not None and abs(float(mean) / x[0] - 1) < 6e-3 and (not math.isfinite(float(sd)) and x[1] < 1e-6 or abs(float(sd) - x[1]) < 0.0051 + 1e-3 * x[1])
    ok = [e for e in att if e["out"] == "ok"]
    ko = [e for e in att if e["out"] != "ok"]
    meansok = same(g.group(2), g.group(3), [e["rdt"] for e in ok]) and same(g.group(4), g.group(5), [e["rdu"] for e in ok]) \
        and same(b.group(2), b.group(3), [e["rdt"] for e in ko])
    # the largest angle between neighbours over the accepted configurations
    seen = ([att[0]["cur"]] if att else []) + [e["trial"] for e in ok]
    if seen:
        ang = max(max_angle(m, states.l[i]) for i in seen)
        meansok = meansok and abs(float(a.group(1)) - ang) <= 0.006 * ang + 0.02
    return dict(stats=True, good=int(g.group(1)), bad=int(b.group(1)), meansok=meansok)


def strip(tr):
    """Removes the floating-point fields, which TLC does not read."""
    t = json.loads(json.dumps(tr))
    for e in t["att"] + t["fin"]["rows"]:
        for k in ("rdt", "rdu", "rdm"):
            e.pop(k, None)
    return t


TRACE_CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


EVALUATION = ("Overflow when computing", "Attempted to ", "is not in the domain", "out of the range")


def validate(traces, scratch, module="TimeLoopTrace", timeout=600, found=None):
    """-> list of sets of broken labels, one per trace; plus the TLC result.

    A trace that TLC cannot evaluate holds values that no behaviour of the specification has (out of the range of the
    integers it is written with, a list of the wrong length): it is looked for by bisection and breaks '.range'."""
    if not traces:
        return [], None
    found = [] if found is None else found
    r = vf.tlc(module, TRACE_CFG, scratch, files=[("traces.json", json.dumps(traces))], timeout=timeout, evaluation=EVALUATION)
    if not r.ok:
        if not any(e in r.out for e in EVALUATION):
            raise vf.CheckError("trace validation did not complete:\n" + r.out[-3000:])
        if len(traces) == 1:
            found.append(1)
            return [{"C%02d.range" % i for i in range(1, 41)}], r
        h, out = len(traces) // 2, []
        for part in (traces[:h], traces[h:]):
            out += validate(part, scratch, module, timeout, found)[0] if len(found) < 2 else [set() for _ in part]
        if not found:
            raise vf.CheckError("trace validation did not complete:\n" + r.out[-3000:])
        return out, r
    out = [None] * len(traces)
    for m in re.finditer(r'"VERDICT (\d+) \{(.*?)\}"', r.out):
        out[int(m.group(1)) - 1] = set(re.findall(r'\\"([^"\\]+)\\"', m.group(2)))
    if any(x is None for x in out):
        raise vf.CheckError("missing verdicts:\n" + r.out[-3000:])
    return out, r


def campaign(prop, seed, scripts, nscript, nrandom, nphys, exe, scratch, check, blind=False):
    """Runs the scenarios and reports the labels of `prop`."""
    rng = random.Random(seed * 1000003 + 17)
    cs = {c["name"]: c for c in configs()}
    if blind:
        scens = [physics_scen(rng) for _ in range(nphys * 2)]
        for s in scens:
            s.blind, s.script = True, None
    else:
        sel = pick(scripts, nscript, rng, signals=(prop == "C04"))
        scens = [scen_from_script(s, cs, rng) for s in sel]
        scens += [random_scen(rng, signals=(prop == "C04" or rng.random() < 0.3)) for _ in range(nrandom)]
        scens += [storm_scen(rng) for _ in range(nrandom // 2)]
        scens += [physics_scen(rng) for _ in range(nphys)]
        scens += lone_scens(rng, nphys // 3)
    if prop == "C05":
        for k in (30, 120):
            l = long_scens(rng, 8, k)
            for i, s in enumerate(l):
                s.period = (1, 2, 3, 7, 10, k, k - 1, k + 1)[i]
            scens += l
    if prop in ("C01", "C03"):
        scens += long_scens(rng, 8, 8000 if vf.thorough() else 2000) + start_scens(rng, 400 if vf.thorough() else 60)

    def one(a):
        i, s = a
        d = os.path.join(scratch, "r%d" % i)
        try:
            return run_scen(exe, s, d)[0]
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(d, ignore_errors=True)
    traces = vf.pmap(one, list(enumerate(scens)))
    verdicts, res = validate([strip(t) for t in traces], scratch)
    kinds = {}
    for t in traces:
        kinds[t["fin"]["how"]] = kinds.get(t["fin"]["how"], 0) + 1
    mine = lambda v: {x for x in v if x.split(".")[0] == prop}
    hits = [i for i, v in enumerate(verdicts) if mine(v)]
    # a rejected run is confirmed by running it again
    hits = hits[:40]
    again = vf.pmap(one, [(100000 + i, scens[i]) for i in hits])
    v2s, _ = validate([strip(t) for t in again], scratch)
    for i, t2, v2 in zip(hits, again, v2s):
        both = mine(verdicts[i]) & mine(v2)
        if both:
            check.violation("%s broken by a %s run: config %s" % (",".join(sorted(both)), t2["fin"]["how"], scens[i].cfg),
                            {"labels": sorted(both), "scenario": scens[i].describe(), "settings": settings_of(scens[i]),
                             "trace": t2})
    check.add(traces_validated_against_impl=len(traces), states=res.distinct, transitions=res.generated,
              attempts_observed=sum(len(t["att"]) for t in traces), endings=kinds,
              rejected_attempts=sum(1 for t in traces for e in t["att"] if e["out"] != "ok"),
              signals_delivered=sum(1 for t in traces if any(e["sig"] or e["before"] for e in t["att"]) or t["fin"]["before"]))
    if "samples" not in check.cov:
        check.add(samples=[{"scenario": scens[i].describe(), "endings": traces[i]["fin"]["how"],
                            "attempts": len(traces[i]["att"])} for i in range(min(3, len(scens)))])
    return traces


def pick(scripts, n, rng, signals):
    """A sample stratified by configuration and ending."""
    groups = {}
    for s in scripts:
        if (s["sign"] >= 0) and not signals and rng.random() < 0.7:
            continue
        if s["sign"] < 0 and signals and rng.random() < 0.7:
            continue
        groups.setdefault((s["cfg"], s["phase"], s["sign"], len(s["outs"]) > 6), []).append(s)
    out = []
    keys = sorted(groups)
    for k in keys:
        rng.shuffle(groups[k])
    while len(out) < n and any(groups[k] for k in keys):
        for k in keys:
            if groups[k] and len(out) < n:
                out.append(groups[k].pop())
    return out
