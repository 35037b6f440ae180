"""C06, C12, C13, C15, C16, C17, C28: the mesh, the initial state, what the rows say."""
import random
import vf, meshcase as mc, fieldcase as fc


def rng(p):
    return random.Random(vf.SEED * 1009 + int(p[1:]))


def scaled(quick, thorough):
    return thorough if vf.thorough() else quick


def begin(p):
    return vf.Check(p, "model_checking"), vf.Tree().feellgood(), rng(p)


def enumerated(ck, d, quick):
    """Model checking of the completion of the surfaces; the enumerated meshes."""
    r, cs = mc.enumerate_meshes(d, scaled(1, 2))
    ck.add(model_states=r.distinct, meshes_enumerated=len(cs))
    return cs


def c12():
    ck, exe, g = begin("C12")
    with vf.Scratch("C12") as d:
        en = enumerated(ck, d, True)
        cases = [mc.from_enum(c, "C12", g) for c in g.sample(en, min(len(en), scaled(1500, 8000)))]
        cases += [mc.random_case(g, "C12", illegal=0.75) for _ in range(scaled(700, 6000))]
        for b in mc.BROKEN:
            for _ in range(scaled(6, 30)):
                c = mc.random_case(g, "C12")
                c.broken = b
                cases.append(c)
        mc.campaign("C12", cases, exe, d, ck, ("C12.",))
        ck.add(samples=[c.describe()["m"] for c in cases[:2]])
    return ck.finish()


def c13():
    ck, exe, g = begin("C13")
    with vf.Scratch("C13") as d:
        en = enumerated(ck, d, True)
        cases = [mc.from_enum(c, "C13", g) for c in g.sample(en, min(len(en), scaled(900, 8000)))]
        for c in cases:
            c.m["dsurf"]["ks"] = 0
        new = []
        for _ in range(scaled(900, 6000)):
            c = mc.random_case(g, "C13", rules=["const", "mod", "regions"])
            if g.random() < 0.6:
                c.m["dsurf"].update(ks=g.choice([1, 2, -1]), sup=g.random() < 0.3)
            new.append(c)
        mc.campaign("C13", cases + new, exe, d, ck, ("C13.", "C06.E_aniso", "C06.E_demag"))
        ck.add(samples=[c.describe()["m"] for c in new[:2]])
    return ck.finish()


def c15():
    ck, exe, g = begin("C15")
    with vf.Scratch("C15") as d:
        en = enumerated(ck, d, True)
        cases = [mc.from_enum(c, "C15", g) for c in g.sample(en, min(len(en), scaled(300, 4000)))]
        for c in cases:
            c.L = g.choice([1e-9, 1e-8, 1e-6, 1e-3, 1])
        cases += [mc.random_case(g, "C15", rules=["mod", "regions", "const"], big=g.random() < 0.3) for _ in range(scaled(1200, 8000))]
        mc.campaign("C15", cases, exe, d, ck, ("C15.", "C06.E_ex", "C06.<M", "C06.Thiele", "C06.E_zeeman"))
        ck.add(samples=[c.describe()["m"] for c in cases[-2:]])
    return ck.finish()


def c16():
    ck, exe, g = begin("C16")
    with vf.Scratch("C16") as d:
        en = enumerated(ck, d, True)
        cases = [mc.random_case(g, "C16", rules=["mod", "regions", "linear", "const"], big=g.random() < 0.3, surfaces=False) for _ in range(scaled(1500, 9000))]
        mc.campaign("C16", cases, exe, d, ck, ("C16.", "C06.<M"))
        ck.add(samples=[c.describe() for c in cases[-2:]])
    return ck.finish()


def c28():
    ck, exe, g = begin("C28")
    with vf.Scratch("C28") as d:
        enumerated(ck, d, True)
        cases = [mc.random_case(g, "C28", rules=["linear", "mod", "const", "regions"]) for _ in range(scaled(500, 4000))]
        mc.campaign("C28", cases, exe, d, ck, ("C28.",))
        runs = [mc.Rows(g, "C28") for _ in range(scaled(150, 1500))]
        runs += [mc.Rows(g, "C28", steps=1, sub=scaled(1000, 5000)) for _ in range(scaled(12, 120))]
        mc.rows_campaign("C28", runs, exe, d, ck, ("C28.",))
        ck.add(samples=[c.describe() for c in cases[-2:]])
    return ck.finish()


def c06():
    ck, exe, g = begin("C06")
    with vf.Scratch("C06") as d:
        enumerated(ck, d, True)
        cases = [mc.random_case(g, "C06", rules=["mod", "regions", "const"], big=g.random() < 0.2) for _ in range(scaled(800, 6000))]
        for _ in range(scaled(60, 300)):
            c = mc.random_case(g, "C06")
            bad = g.choice(["foo", "<mx>", "E_Ex", "E_kin", "time", "", "Iter", "nowhere:<Mx>", ":<Mx>", "<Mx", "H", "E_tot ", c.m["vols"][0]["n"] + ":foo", c.m["vols"][0]["n"]])
            c.columns.insert(g.randrange(len(c.columns) + 1), bad)
            cases.append(c)
        mc.campaign("C06", cases, exe, d, ck, ("C06.",))
        runs = [mc.Rows(g, "C06", steps=g.choice([2, 4, 6])) for _ in range(scaled(150, 1500))]
        mc.rows_campaign("C06", runs, exe, d, ck, ("C06.",))
        ck.add(samples=[c.describe() for c in cases[-2:]])
    return ck.finish()


def c17():
    ck, exe, g = begin("C17")
    with vf.Scratch("C17") as d:
        enumerated(ck, d, True)
        cases = [mc.random_case(g, "C17", rules=["mod", "regions", "const"], fields=("cells", "linear", "uniform"), aniso=False) for _ in range(scaled(800, 6000))]
        for c in cases:
            if c.field["k"] == "uniform":
                c.fform = "space"
                c.field["k"] = "cells"
                c.field.update(pal=[c.field["b"]], a=[0, 0, 0], amp=1)
        mc.campaign("C17", cases, exe, d, ck, ("C17.",))
        n = scaled(60, 600)
        runs = [fc.Blocks(g) for _ in range(n)] + [fc.Same(g) for _ in range(n)]
        fc.campaign(runs, exe, d, ck)
        ck.add(samples=[c.describe() for c in runs[:2]])
    return ck.finish()


CHECKS = {"C06": c06, "C12": c12, "C13": c13, "C15": c15, "C16": c16, "C17": c17, "C28": c28}
_N = ("MeshModel.tla gives, on meshes with integer coordinates, the accepted meshes, the completion of the surfaces, the volumes, the magnetic nodes and the exact "
      "values of the reported quantities; TLC checks its laws on all the meshes made of four tetrahedra that may share a face (MeshMC). The enumerated meshes and random ones "
      "(regions, orientations, numbering, units, fields, initial magnetizations, faults) go through the real program, and TLC compares what it reports with the model (MeshTrace, "
      "RowTrace, FieldTrace). Bounded: small meshes; the numbers are compared within stated tolerances.")
NOTES = {p: {"note": _N} for p in CHECKS}
