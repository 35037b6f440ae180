"""C09 - C11: the settings."""
import json, os, random
import vf, settingslib as sl

BAD_T = ("jsbad", "halfspace", "spacelist", "map")


def merge(rng, cs, n):
    """A random multi-key scenario made of enumerated cases."""
    user, sim = [], []
    for c in rng.sample(cs, n):
        user += c["user"]
        sim += c["sim"]
    out = []
    for l in (user, sim):
        seen, r = {}, []
        for e in l:
            seen[e["reg"], e["key"]] = e
        r = list(seen.values())
        # a region cannot be in a section that is not a map
        r = [e for e in r if e["key"] not in sl.SECTION]
        r.sort(key=lambda e: e["reg"] != "__default__")
        out.append(r)
    return out


WEIRD = ["plain", "with space", " lead", "trail ", "quote\"d", "back\\slash", "a: b", "a #b", "#x", "- x", "[1, 2]", "{a: b}", "null", "~",
         "true", "1e5", "0x10", "tab\there", "é∂ü", "%y", "@at", "`bt`", "!tag", "&anc", "*al", "'single'", "x'", "|", ">", "a:b", "a,b", "..",
         "a\\n", "c:\\dir\\", "2024-01-01", "no", "=", "<<", "?x", "x:"]
MULTI = ["line1\nline2", "line1\nline2\n", "  ind\nx\n", "\nfirst empty", "a\n\nb\n\n", "a\n  b\n c", "a \nb ", "x\n\ty", "# c\nd\n", "a\n ",
         "\"q\"\n\\e\n", "- a\n- b\n"]
FUNS = ["function(x,y,z) { return [1,x,0]; }", "function(x, y, z)\n{\n  // \"comment\"\n  return [sin(x), 0, 1];\n}\n",
        "  function (x,y,z) {\n    return [0,\n\n 1, 0];}", "function(x,y,z) { var s = 'a\\\\b'; return [s.length,0,0]; }",
        "function(x,y,z,r) { return r.includes(\"A\") ? [1,0,0] : [0,0,1]; }\n\n"]
TFUNS = ["function(t) { return [t,0,0]; }", "function(t) {\n  return t > 1 ? [0,0,\"1\"*1] : [0,0,0];\n}", "function(t) { return [0,1e-3,0]; }\n"]


def number(rng):
    m = rng.choice([rng.uniform(0.1, 10), float(rng.randint(1, 99)), 1 / 3., rng.random()])
    return repr(m * 10.0 ** rng.randint(-20, 20))


def roundtrip(rng):
    """A random well-formed scenario for --verify: odd strings, all digits."""
    E, S = sl.entry, []
    W = lambda: rng.choice(WEIRD)
    for k in sorted(sl.NUMERIC):
        if k[:4] != "vol." and k[:5] != "surf." and rng.random() < 0.5:
            S.append(E("", k, "num", number(rng)))
    if rng.random() < 0.1:
        S.append(E("", "outputs.final_time", "num", ".inf"))
        S = [e for i, e in enumerate(S) if e["key"] != "outputs.final_time" or i == len(S) - 1]
    for k in ("outputs.directory", "outputs.file_basename", "mesh.filename"):
        if rng.random() < 0.7:
            S.append(E("", k, "str", W()))
    if rng.random() < 0.6:
        S.append(E("", "outputs.evol_columns", "list", [W() for _ in range(rng.randint(1, 4))]))
    if rng.random() < 0.5:
        S.append(E("", "outputs.mag_config_every", "int", rng.choice([0, 3, -1, 1000000])))
    for n in rng.sample(WEIRD + ["key 1", "Author"], rng.randint(0, 3)):
        S.append(E(n, "meta", "str", rng.choice(WEIRD + MULTI + [""])))
    for n in rng.sample(["A", "B c", "1", "reg:x", "r#", "\"q", "null", "surface(A)", "r\\"], rng.randint(0, 2)):
        S.append(E(n, "vol", "null", 0))
        for k in sl.VOLKEYS + ["vol.Js"]:
            if rng.random() < 0.5 and not (k == "vol.Js" and any(e["reg"] == n and e["key"] == "vol.Ms" for e in S)):
                S.append(E(n, k, "vec", rng.choice([[3, 4, 0], [2, 3, 6], [0, -1, 0], [1, 2, 2]])) if k in sl.VECTOR
                         else E(n, k, "num", rng.choice([number(rng), "0"])))
    spin = rng.random() < 0.5
    S.append(E("", "spin_accumulation.enable", "bool", spin))
    S.append(E("", "spin_accumulation.V_file", "bool", rng.random() < 0.5))
    for n in rng.sample(["S", "T 2", "x: y", "null", "#s"], rng.randint(0, 2)):
        S.append(E(n, "surf", "null", 0))
        jv = rng.choice(["surf.jn", "surf.V", None])
        for k in sl.SURFKEYS:
            if k in ("surf.jn", "surf.V"):
                if k == jv:
                    S.append(E(n, k, "num", rng.choice([number(rng), "0", "-2.5"])))
            elif rng.random() < 0.5:
                S.append(E(n, k, "vec", rng.choice([[3, 4, 0], [2, 3, 6], [0, -1, 0]])) if k in sl.VECTOR
                         else E(n, k, "bool", rng.random() < 0.5) if k in sl.BOOLEAN else E(n, k, "num", number(rng)))
    m = rng.random()
    if m < 0.3:
        S.append(E("", "initial_magnetization", "exprs", [rng.choice(["1", "x", "\"ab\".length", "'\\\\'.length", "x > 1 ? 0 : 1", "y\n+z", "sin(x) /* # */"])
                                                         for _ in range(3)]))
    elif m < 0.6:
        S.append(E("", "initial_magnetization", "function", rng.choice(FUNS)))
    elif m < 0.9:
        S.append(E("", "initial_magnetization", "file", rng.choice([w for w in WEIRD])))
    m = rng.random()
    if m < 0.3:
        S.append(E("", "Bext", "exprs", [rng.choice(["t", "0", "\"ab\".length", "2*t\n", "1e-3"]) for _ in range(3)]))
    elif m < 0.6:
        S.append(E("", "Bext", "function", rng.choice(TFUNS)))
    elif m < 0.9:
        S.append(E("", "Bext", "spacetime", [rng.choice(FUNS[:4]), rng.choice(["function(t) { return t; }", "function(t)\n{ return 2*t; }\n"])]))
    S.append(E("", "recentering.enable", "bool", rng.random() < 0.5))
    if rng.random() < 0.7:
        S.append(E("", "recentering.direction", "str", rng.choice("XYZ")))
    for k in ("demagnetizing_field_solver.nb_threads", "finite_element_solver.max(iter)"):
        if rng.random() < 0.5:
            S.append(E("", k, "int", rng.randint(1, 9)))
    user = [e for e in S if e["reg"] == "" and rng.random() < 0.15]
    return user, S


def suspicious(c):
    """The case has a chance of being malformed."""
    for e in c["user"] + c["sim"]:
        t, v, k = e["val"]["t"], e["val"]["v"], e["key"]
        if t in BAD_T or (t == "str" and k not in sl.STRINGS and k != "meta") or (t == "list" and not v) or (t == "vec" and len(v) != 3) \
                or (t == "exprs" and len(v) != 3) or k in sl.SECTION or (k == "recentering.direction" and v not in ("X", "Y", "Z", 0)) \
                or (k == "mesh.length_unit" and t == "num" and float(v) <= 0) or (k == "outputs.mag_config_every" and t != "int") or k == "vol.Js":
            return True
    return any(e["key"] == "surf.V" for e in c["user"] + c["sim"])


LIVE = set("""outputs.directory outputs.file_basename outputs.mag_config_every outputs.evol_columns recentering.threshold
finite_element_solver.tolerance finite_element_solver.max(iter) time_integration.max(du) vol.K vol.uk vol.alpha_LLG vol.Ae vol.K3 vol.ex
surf.Ks surf.uk surf.suppress_charges meta Bext initial_magnetization demagnetizing_field_solver.nb_threads initial_time""".split())


SCALES = [1, 1, 0.125, 0.001, 40]


def live(rng, good):
    """A scenario which is run for real, stopping at the initial time."""
    pool = [c for c in good if c["key"] in LIVE and not any(e["key"] == "outputs.directory" and "/" in str(e["val"]["v"])[:-1]
                                                            for e in c["user"] + c["sim"])]
    n = rng.randint(1, 4)
    u, s = merge(rng, pool, n)
    if rng.random() < 0.4:  # both layers say how it starts, or what the field is
        k = rng.choice(["initial_magnetization", "Bext"])
        c = rng.choice([c for c in pool if c["key"] == k and c["user"] and c["sim"]])
        u, s = [e for e in u if e["key"] != k] + c["user"], [e for e in s if e["key"] != k] + c["sim"]
    have = {(e["reg"], e["key"]) for e in s}
    for r in ("A", "B"):
        if (r, "vol") not in have:
            s.append(sl.entry(r, "vol", "null", 0))
    drop = ("outputs.final_time", "mesh.filename", "outputs.evol_time_step", "mesh.length_unit")
    u = [e for e in u if e["key"] not in drop]
    t0 = [e for e in u + s if e["key"] == "initial_time" and e["val"]["t"] == "num"]
    s = [e for e in s if e["key"] not in drop] + [sl.entry("", "outputs.final_time", "num", t0[-1]["val"]["v"] if t0 else "0"),
                                                  sl.entry("", "mesh.filename", "str", "mesh.msh")]
    if not any(e["key"] == "outputs.evol_columns" for e in u + s) and rng.random() < 0.8:
        s.append(sl.entry("", "outputs.evol_columns", "list", ["t", "iter", "<Mx>", "<My>", "<Mz>", "E_tot", "E_zeeman", "A:<Mx>"]))
    if not any(e["key"] == "outputs.mag_config_every" for e in u + s) and rng.random() < 0.8:
        s.append(sl.entry("", "outputs.mag_config_every", "int", 1))
    sc = sl.Scenario(u, s, "C09", keys=0.3)
    sc.scale = rng.choice(SCALES)
    sc.live = True
    return sc


def c09():
    ck = vf.Check("C09", "model_checking")
    exe = vf.Tree().feellgood()
    rng = random.Random(vf.SEED * 77 + 9)
    with vf.Scratch("C09") as d:
        cs, r = sl.cases(d)
        ck.add(model_states=r.distinct, cases_enumerated=len(cs))
        by = {}
        for c in cs:
            by.setdefault(c["key"], []).append(c)
        quota = 400 if vf.thorough() else 32
        scens = []
        for k in sorted(by):
            l = [c for c in by[k] if not suspicious(c) or rng.random() < 0.1]
            for c in rng.sample(l, min(quota, len(l))):
                s = sl.Scenario(c["user"], c["sim"], "C09", keys=0.1)
                s.asstdin = rng.random() < 0.1
                s.scale = rng.choice(SCALES)
                scens.append(s)
        # several keys at once
        good = [c for c in cs if c["key"] not in sl.SECTION and not suspicious(c)]
        for _ in range(3000 if vf.thorough() else 200):
            scens.append(live(rng, good))
        for _ in range(4000 if vf.thorough() else 500):
            u, s = merge(rng, good, rng.randint(2, 5))
            scens.append(sl.Scenario(u, s, "C09", keys=0.3))
        # where the user's defaults are looked for
        pick = lambda: rng.choice([c for c in by["outputs.directory"] + by["time_integration.max(du)"] + by["Bext"] if c["user"]])
        for xdg in ("set", "empty", "unset"):
            for home in ("set", "empty", "unset"):
                for xf in (False, True):
                    for hf in (False, True):
                        if (xf and xdg != "set") or (hf and home != "set"):
                            continue
                        for n in range(5):
                            a, b = pick(), pick()
                            if n > 2:  # plainly visible
                                a, b = ({"user": [sl.entry("", "outputs.directory", "str", "from" + x), sl.entry("", k, "num", y)], "sim": []}
                                        for x, y, k in (("xdg", "0.25", "time_integration.max(du)"), ("home", "0.125", rng.choice(["time_integration.max(du)", "initial_time"]))))
                            scens.append(sl.Scenario(None, a["sim"], "C09", env={"xdg": xdg, "home": home, "xdgFile": xf, "homeFile": hf},
                                                     users={"xdg": a["user"], "home": b["user"]}, keys=0.2))
        tr = sl.campaign("C09", scens, exe, d, ck)
        ck.add(samples=[s.describe() for s in scens[:3]], accepted=sum(1 for t in tr if t["rc"] == 0))
    return ck.finish()


def c11():
    ck = vf.Check("C11", "model_checking")
    exe = vf.Tree().feellgood()
    rng = random.Random(vf.SEED * 77 + 11)
    with vf.Scratch("C11") as d:
        cs, r = sl.cases(d)
        ck.add(model_states=r.distinct, cases_enumerated=len(cs))

        bad = suspicious
        by = {}
        for c in cs:
            if bad(c):
                by.setdefault(c["key"], []).append(c)
        quota = 200 if vf.thorough() else 22
        scens = []
        for k in sorted(by):
            # every doubtful value, in every layer
            groups = {}
            for c in by[k]:
                sig = tuple(tuple(json.dumps(e["val"]) for e in c[l] if suspicious({"user": [e], "sim": []})) for l in ("user", "sim"))
                groups.setdefault(sig, []).append(c)
            one = [rng.choice(groups[g]) for g in sorted(groups) if sum(map(len, g)) < 2]
            cs2 = one + rng.sample(by[k], min(max(quota - len(one), 4), len(by[k])))
            scens += [sl.Scenario(c["user"], c["sim"], "C11", keys=0.0) for c in cs2]
        allbad = [c for k in sorted(by) for c in by[k] if c["key"] not in sl.SECTION]
        good = [c for c in cs if not bad(c) and c["key"] not in sl.SECTION]
        for _ in range(1500 if vf.thorough() else 150):
            u, s = merge(rng, good, rng.randint(1, 3))
            u2, s2 = merge(rng, allbad, 1)
            keys = {(e["reg"], e["key"]) for e in u2 + s2}
            scens.append(sl.Scenario([e for e in u if (e["reg"], e["key"]) not in keys] + u2,
                                     [e for e in s if (e["reg"], e["key"]) not in keys] + s2, "C11", keys=0.0))
        sl.campaign("C11", scens, exe, d, ck)
        # no settings at all
        for name, text in (("missing", None), ("empty", ""), ("comment", "# nothing\n"), ("null", "~\n"), ("notyaml", "a: [1\nb: {"), ("tab", "outputs:\n\tdirectory: x\n")):
            w = os.path.join(d, "none-" + name)
            os.makedirs(w)
            if text is not None:
                open(os.path.join(w, "s.yml"), "w").write(text)
            for args in (["s.yml"], ["--verify", "s.yml"], ["-"], ["--verify", "-"], ["-v", "--seed", "2", "-"]):
                rc, out, err = sl.call(exe, args, w, sl.run_env({"HOME": w}), stdin=(text or "") if args[-1] == "-" else None)
                left = [f for f in os.listdir(w) if f != "s.yml"]
                if rc == 0 or left:
                    ck.violation("C11.nothing: %s settings accepted (%s), left %s" % (name, " ".join(args), left), {"text": text, "args": args, "status": rc})
        ck.add(samples=[s.describe() for s in scens[:3]])
    return ck.finish()


def c10():
    ck = vf.Check("C10", "model_checking")
    exe = vf.Tree().feellgood()
    rng = random.Random(vf.SEED * 77 + 10)
    with vf.Scratch("C10") as d:
        cs, r = sl.cases(d)
        ck.add(model_states=r.distinct, cases_enumerated=len(cs))
        scens = []
        for _ in range(6000 if vf.thorough() else 600):
            u, s = roundtrip(rng)
            scens.append(sl.Scenario(u, s, "C10", exact=True, twice=True))
            scens[-1].scale = rng.choice(SCALES)
        good = [c for c in cs if c["key"] not in sl.SECTION and not suspicious(c)]
        for _ in range(2000 if vf.thorough() else 250):
            u, s = merge(rng, good, rng.randint(1, 4))
            scens.append(sl.Scenario(u, s, "C10", exact=True, twice=True, keys=0.3))
        sl.campaign("C10", scens, exe, d, ck)
        ck.add(samples=[s.describe() for s in scens[:3]])
    return ck.finish()


CHECKS = {"C09": c09, "C10": c10, "C11": c11}
_N = ("Settings.tla defines the effective value of every key from the layers, and which layers are malformed; TLC explores all pairs of contents "
      "of the two upper layers for every key (SettingsMC) and checks the laws of precedence. The enumerated cases and random combinations are given "
      "to the real program (--verify, standard input, environment of the user's defaults); TLC compares what it reports, or its refusal, with the specification. "
      "Bounded: sampled combinations of keys; unknown keys are not covered.")
NOTES = {p: {"note": _N} for p in CHECKS}
