"""Settings layers: concretization of the cases of SettingsMC.tla, and reading of what the program reports."""
import json, os, random, re, shutil, subprocess
import yaml as pyyaml
import vf, feel, meshgen, timeloop

NUMERIC = set("""outputs.evol_time_step outputs.final_time mesh.length_unit initial_time recentering.threshold
finite_element_solver.tolerance time_integration.max(du) time_integration.min(dt) time_integration.max(dt) vol.Ae vol.Ms vol.Js
vol.K vol.K3 vol.alpha_LLG vol.sigma vol.dens_state vol.P vol.l_sd vol.l_sf surf.Ks surf.jn surf.V""".split())
INTEGRAL = {"outputs.mag_config_every", "demagnetizing_field_solver.nb_threads", "finite_element_solver.max(iter)"}
BOOLEAN = {"recentering.enable", "spin_accumulation.enable", "spin_accumulation.V_file", "surf.suppress_charges"}
VECTOR = {"vol.uk", "vol.ex", "vol.ey", "vol.ez", "surf.uk", "surf.uP", "surf.s"}
STRINGS = {"outputs.directory", "outputs.file_basename", "mesh.filename", "recentering.direction"}
SECTION = {"outputs", "mesh", "mesh.volume_regions", "mesh.surface_regions", "outputs.metadata"}
SCALARS = sorted(k for k in NUMERIC | INTEGRAL | BOOLEAN | STRINGS | {"outputs.evol_columns", "initial_magnetization", "Bext"}
                 if k[:4] != "vol." and k[:5] != "surf.")
VOLKEYS = sorted(k for k in NUMERIC | VECTOR if k[:4] == "vol." and k != "vol.Js")
SURFKEYS = sorted(k for k in NUMERIC | BOOLEAN | VECTOR if k[:5] == "surf.")
MU0 = 1.25663706127e-6
MC_CFG = "SPECIFICATION Spec\nCONSTANT Emit = TRUE\nINVARIANTS SimWins UserElse NoRepair Idempotent\nCHECK_DEADLOCK FALSE\n"


def canon(x, exact):
    x = float(str(x).replace(".inf", "inf"))
    if not exact:
        x = float("%.8g" % x)
    if x != x or x in (float("inf"), -float("inf")):
        return repr(x)
    return str(int(x)) if x == int(x) and abs(x) < 1e15 else repr(x)


def cases(scratch):
    r = vf.model_check("SettingsMC", MC_CFG, scratch)
    out = []
    for m in re.finditer(r'^"CASE (.*)"$', r.out, re.M):
        out.append(json.loads(m.group(1).encode().decode("unicode_escape").encode("latin-1").decode()
                              if "\\u" in m.group(1) else json.loads('"' + m.group(1) + '"')))
    if not out:
        raise vf.CheckError("no case enumerated")
    out.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return out, r


class N(str):
    """Text of a number, written without quotes."""


def plain(val):
    """YAML contents of a value."""
    t, v = val["t"], val["v"]
    if t == "null":
        return None
    if t == "num":
        return N(v)
    if t in ("str", "int", "bool", "vec", "list", "exprs", "file", "function", "jsbad"):
        return v
    if t == "map":
        return {}
    if t == "spacetime":
        return {"space": v[0], "time": v[1]}
    if t == "halfspace":
        return {"space": "function(x, y, z) { return [x, 1, 0]; }"}
    if t == "spacelist":
        return {"space": ["1", "2", "3"], "time": ["t"]}
    raise KeyError(t)


def dump(x):
    if isinstance(x, N):
        return str(x)
    if isinstance(x, dict):
        return "{" + ", ".join(json.dumps(k, ensure_ascii=False) + ": " + dump(v) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(dump(v) for v in x) + "]"
    if isinstance(x, float):
        return repr(x)
    return json.dumps(x, ensure_ascii=False)


def doc(layer, scale=1):
    """A layer as a YAML document; the directions are multiplied by scale."""
    d = {}
    if scale != 1:
        layer = [dict(e, val={"t": "vec", "v": [c * scale for c in e["val"]["v"]]}) if e["val"]["t"] == "vec" and e["key"] != "surf.s" else e for e in layer]
    for e in layer:
        k, r = e["key"], e["reg"]
        if k in SECTION:
            if k == "outputs" or k == "mesh":
                d[k] = plain(e["val"])
            else:
                a, b = k.split(".")
                d.setdefault(a, {})[b] = plain(e["val"])
        elif k in ("vol", "surf") or k[:4] == "vol." or k[:5] == "surf.":
            sec = "volume_regions" if k.startswith("vol") else "surface_regions"
            regs = d.setdefault("mesh", {}).setdefault(sec, {})
            regs.setdefault(r, None)
            if "." in k:
                if regs[r] is None:
                    regs[r] = {}
                regs[r][k.split(".", 1)[1]] = plain(e["val"])
        elif k == "meta":
            d.setdefault("outputs", {}).setdefault("metadata", {})[r] = plain(e["val"])
        elif "." in k:
            a, b = k.split(".", 1)
            d.setdefault(a, {})[b] = plain(e["val"])
        else:
            d[k] = plain(e["val"])
    for sec in ("volume_regions", "surface_regions"):  # the defaults come first
        regs = d.get("mesh").get(sec) if isinstance(d.get("mesh"), dict) else None
        if isinstance(regs, dict) and "__default__" in regs:
            d["mesh"][sec] = dict([("__default__", regs["__default__"])] + [x for x in regs.items() if x[0] != "__default__"])
    return d


def entry(reg, key, t, v):
    return {"reg": reg, "key": key, "val": {"t": t, "v": v}}


def value(key, s, exact):
    """Value reported by the program: s is what the YAML reader gives, scalars as text."""
    try:
        if key in NUMERIC:
            if s == "":
                return "null", 0
            x = float(s.replace(".inf", "inf").replace(".nan", "nan"))
            return "num", canon(x, exact)
        if key in INTEGRAL:
            return "int", int(s)
        if key in BOOLEAN:
            return "bool", {"true": True, "false": False}[s]
        if key in VECTOR:
            if s == "":
                return "null", 0
            return "vec", [int(round(float(x) * 1e6)) for x in s]
        if key in STRINGS:
            return "str", str(s)
        if key == "outputs.evol_columns":
            return "list", list(s)
        if key == "initial_magnetization":
            if isinstance(s, list):
                return "exprs", s
            return ("function" if "function" in s and "{" in s else "file"), s
        if key == "Bext":
            if isinstance(s, list):
                return "exprs", s
            if isinstance(s, dict):
                return "spacetime", [s["space"], s["time"]]
            return "function", s
    except (ValueError, TypeError, KeyError, OverflowError, AttributeError):
        pass
    return "other", json.dumps(s)


def layer_of(text, exact, is_base=False):
    """A settings document as a layer (None when it is not a YAML map)."""
    try:
        d = pyyaml.load(text, Loader=pyyaml.BaseLoader)
    except pyyaml.YAMLError:
        return None
    if not isinstance(d, dict):
        return None
    out = []

    def put(reg, key, s):
        t, v = value(key, s, exact)
        if is_base and s == "":
            t, v = "null", 0
        if is_base and t == "vec":
            v = [int(float(x)) for x in s]
        out.append(entry(reg, key, t, v))
    for k in SCALARS:
        x = d
        for p in ([k] if k in d else k.split(".", 1)):
            x = x.get(p) if isinstance(x, dict) else None
        if x is not None:
            put("", k, x)
    mesh = d.get("mesh") if isinstance(d.get("mesh"), dict) else {}
    for what, sec, keys in (("vol", "volume_regions", VOLKEYS), ("surf", "surface_regions", SURFKEYS)):
        regs = mesh.get(sec)
        for r, ps in (regs.items() if isinstance(regs, dict) else ()):
            out.append(entry(r, what, "null", 0))
            for k in keys:
                if isinstance(ps, dict) and k.split(".", 1)[1] in ps:
                    put(r, k, ps[k.split(".", 1)[1]])
    outs = d.get("outputs")
    meta = outs.get("metadata") if isinstance(outs, dict) else None
    for n, s in (meta.items() if isinstance(meta, dict) else ()):
        out.append(entry(n, "meta", "str", s if isinstance(s, str) else json.dumps(s)))
    return out


def spec_layer(layer, exact):
    """The layer as the specification sees it: canonical numbers, Js expressed as Ms."""
    out = []
    for e in layer:
        t, v, k = e["val"]["t"], e["val"]["v"], e["key"]
        if t == "num":
            v = canon(v, exact)
        out.append(entry(e["reg"], k, t, v))
    return out


def with_ms(layer, exact):
    """Adds, for each Js, the Ms it stands for."""
    out = list(layer)
    for e in layer:
        if e["key"] == "vol.Js" and e["val"]["t"] == "num":
            out.append(entry(e["reg"], "vol.JsMs", "num", repr(float(e["val"]["v"]) / MU0)))
    return out


class Scenario:
    def __init__(self, user, sim, prop, exact=False, twice=False, env=None, keys=None, users=None):
        self.user, self.sim, self.prop, self.exact, self.twice = user, sim, prop, exact, twice
        self.env = env or {"xdg": "set", "home": "set", "xdgFile": bool(user), "homeFile": False}
        self.users = users or {"xdg": user, "home": []}
        self.keys = keys
        self.asstdin = False
        self.live = False
        self.scale = 1

    def describe(self):
        return {"user": {k: doc(v, self.scale) for k, v in self.users.items()}, "sim": doc(self.sim, self.scale), "env": self.env}


def live_mesh():
    m = meshgen.box(n=(2, 1, 1), region=lambda x, y, z: "A" if x < 5 else "B")
    m.add_surface("A", m.boundary(lambda p: p[2] == 0))
    return m


def environment(sc, d):
    e = {}
    xd, hd = os.path.join(d, "xdgdir"), os.path.join(d, "homedir")
    if sc.env["xdg"] != "unset":
        e["XDG_CONFIG_HOME"] = xd if sc.env["xdg"] == "set" else ""
    if sc.env["home"] != "unset":
        e["HOME"] = hd if sc.env["home"] == "set" else ""
    for flag, base, name in (("xdgFile", xd, "xdg"), ("homeFile", os.path.join(hd, ".config"), "home")):
        if sc.env[flag]:
            p = os.path.join(base, "feellgood")
            os.makedirs(p, exist_ok=True)
            open(os.path.join(p, "default.yml"), "w").write(dump(doc(sc.users[name], sc.scale)))
    return e


def run_env(e):
    return dict(PATH=os.environ.get("PATH", ""), LC_ALL="C", OMP_NUM_THREADS="1", **e)


def call(exe, args, d, env, stdin=None, timeout=60):
    try:
        p = subprocess.run([exe] + args, cwd=d, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout, errors="replace", stdin=None if stdin is not None else subprocess.DEVNULL)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"


def results(w):
    """What a run has written: name, columns, and numbers in units of 1e-6 of the largest of their line (energies) or of themselves."""
    out = []
    for p in sorted(os.path.join(x, f) for x, _, fs in os.walk(w) for f in fs):
        f = os.path.relpath(p, w)
        if f.endswith(".evol"):
            ev = feel.read_evol(p)
            cols, rows = (ev[1], ev[2]) if ev else ([], [])
            rows = [[number_of(x) for x in r] for r in rows]
            scaled = []
            for r in rows:
                e = [abs(x) for x, c in zip(r, cols) if "E_" in c and x == x] + [0]
                scaled.append([unit(x, max(e) if "E_" in c else 1.0 if "<M" in c else abs(x)) for x, c in zip(r, cols)])
            out.append({"name": f, "cols": cols, "rows": scaled})
        elif f.endswith(".sol") and not os.path.basename(f) in ("start.sol", "my start: 1.sol"):
            s = feel.read_sol(p)
            out.append({"name": f, "cols": [], "rows": [[unit(c, 1.0) for c in v[:3]] for _, v in s["rows"]] if s else []})
    return out


def number_of(x):
    try:
        return float(x)
    except ValueError:
        return float("nan")


def unit(x, scale):
    return 2 * 10 ** 9 if x != x or abs(x) == float("inf") else 0 if scale == 0 else int(round(max(-2000.0, min(2000.0, x / scale)) * 1e6))


def execute(exe, sc, d, base, malformed_run=True):
    """Runs the scenario, returns the trace."""
    os.makedirs(d)
    env = run_env(environment(sc, d))
    w = os.path.join(d, "work")
    os.makedirs(w)
    text = dump(doc(sc.sim, sc.scale))
    open(os.path.join(w, "s.yml"), "w").write(text)
    if sc.live:
        live_mesh().write(os.path.join(w, "mesh.msh"))
        for name in ("start.sol", "my start: 1.sol"):
            open(os.path.join(w, name), "w").write("## time: 0\n## columns: idx\n" + "".join(
                "%d\t%.7e\t%.7e\t%.7e\t0\n" % (i, *((0.6, 0.8, 0) if i % 2 else (0, -0.28, 0.96))) for i in range(12)))
        rc, out, err = call(exe, ["-v"] + (["--seed", "3"] if len(text) % 2 else []) + ["s.yml"], w, env)
        m = re.search(r"^-- settings: -+\n(.*?)^-- end of settings", out, re.M | re.S)
        out = m.group(1) if m else ""
    elif sc.asstdin:
        rc, out, err = call(exe, ["--verify", "-"], w, env, stdin=text)
    else:
        rc, out, err = call(exe, ["--verify", "s.yml"], w, env)
    lay = layer_of(out, sc.exact) if rc == 0 else []
    if lay is None:
        rc, lay = -99, []
    if sc.live:  # regions the mesh reader has added to cover the boundaries
        own = {e["reg"] for l in list(sc.users.values()) + [sc.sim] for e in l}
        lay = [e for e in lay if e["reg"] in own or not e["key"].startswith("surf") or e["reg"] == "__default__"]
    vout = feel.ls(w) != ["s.yml"] and not sc.live
    effect = {"done": False, "rc": 0, "first": [], "second": []}
    created = any(e["reg"] == "__default__" and e["key"].startswith("surf.") for l in list(sc.users.values()) + [sc.sim] for e in l)
    if sc.live and rc == 0 and not created:  # the report does not tell the defaults of the surfaces the mesh reader adds
        # the run of what has been reported has to be the same run
        v = os.path.join(d, "second")
        os.makedirs(v)
        live_mesh().write(os.path.join(v, "mesh.msh"))
        for name in ("start.sol", "my start: 1.sol"):
            shutil.copy(os.path.join(w, name), v)
        rc2, out2, _ = call(exe, ["--verify", "s.yml"], w, env)
        open(os.path.join(v, "s.yml"), "w").write(out2)
        rc2, _, _ = call(exe, (["--seed", "3"] if len(text) % 2 else []) + ["s.yml"], v, run_env({"XDG_CONFIG_HOME": os.path.join(d, "none"), "HOME": v}))
        effect = {"done": True, "rc": abs(rc2), "first": results(w), "second": results(v)}
    t = {"effect": effect, "prop": sc.prop, "env": sc.env, "rc": abs(rc), "out": lay, "again": [], "rc2": 0, "twice": False, "ncpu": os.cpu_count(),
         "base": base, "sim": spec_layer(with_ms(sc.sim, sc.exact), sc.exact),
         "users": {k: spec_layer(with_ms(v, sc.exact), sc.exact) for k, v in sc.users.items()}}
    if rc == 0 and sc.twice:
        open(os.path.join(w, "again.yml"), "w").write(out)
        rc2, out2, _ = call(exe, ["--verify", "again.yml"], w, run_env({"XDG_CONFIG_HOME": os.path.join(d, "none"), "HOME": w}))
        lay2 = layer_of(out2, sc.exact) if rc2 == 0 else []
        t.update(twice=True, rc2=abs(rc2) if lay2 is not None else 99, again=lay2 or [])
    if rc != 0 and malformed_run and not sc.live:
        # a real run has to be refused as well, and to leave nothing behind
        m = meshgen.box()
        m.add_surface("A", m.boundary(lambda p: p[2] == 0))
        m.write(os.path.join(w, "mesh.msh"))
        sim = list(sc.sim)
        if not any(e["key"].startswith("mesh") for e in sim):
            sim.append(entry("", "mesh.filename", "str", "mesh.msh"))
        open(os.path.join(w, "s.yml"), "w").write(dump(doc(sim, sc.scale)))
        rc3, _, _ = call(exe, ["s.yml"], w, env)
        t["rc"] = 0 if rc3 == 0 else t["rc"]
        vout = vout or feel.ls(w) != ["mesh.msh", "s.yml"]
    t["vout"] = vout
    t["report"] = out
    t["err"] = err[-300:]
    regs = {"vol": set(), "surf": set()}
    for l in list(t["users"].values()) + [t["sim"]]:
        for e in l:
            if e["key"] in regs and e["reg"] != "__default__":
                regs[e["key"]].add(e["reg"])
    ask = [{"reg": "", "key": k} for k in SCALARS]
    for what, ks in (("vol", VOLKEYS), ("surf", SURFKEYS)):
        ask += [{"reg": r, "key": k} for r in sorted(regs[what]) for k in ks]
    if sc.keys is not None:
        rng = random.Random(len(text) + len(ask))
        own = {e["key"] for l in list(t["users"].values()) + [t["sim"]] for e in l}
        own |= {"outputs.file_basename"} if "mesh.filename" in own else set()
        ask = [a for a in ask if a["key"] in own or rng.random() < sc.keys]
    t["ask"] = ask
    shutil.rmtree(d, ignore_errors=True)
    return t


def defaults(exe, exact):
    p = subprocess.run([exe, "--print-defaults"], stdout=subprocess.PIPE, text=True, timeout=60)
    l = layer_of(p.stdout, exact, True) if p.returncode == 0 else None
    if l is None:
        raise vf.CheckError("no defaults")
    return l


HIDDEN = ("report", "err")


def campaign(prop, scens, exe, scratch, ck, labels=None):
    base = {x: defaults(exe, x) for x in (True, False)}
    work = os.path.join(scratch, "w")
    os.makedirs(work, exist_ok=True)

    def one(a):
        i, s = a
        return execute(exe, s, os.path.join(work, "c%d" % i), base[s.exact])
    traces = vf.pmap(one, list(enumerate(scens)))
    verdicts, res = timeloop.validate([{k: v for k, v in t.items() if k not in HIDDEN} for t in traces], scratch, "SettingsTrace")
    for s, t, v in zip(scens, traces, verdicts):
        mine = sorted(x for x in v if x.startswith(prop + "."))
        if mine:
            ck.violation("%s: %s -> %s" % (", ".join(mine[:4]), json.dumps(s.describe())[:400], t["err"] or "reported"),
                         {"labels": mine, "case": s.describe(), "status": t["rc"], "reported": t["report"][-3000:]})
    ck.add(traces_validated_against_impl=len(traces), states=res.distinct, transitions=res.generated,
           rejected=sum(1 for t in traces if t["rc"] != 0), keys_compared=sum(len(t["ask"]) for t in traces))
    return traces
