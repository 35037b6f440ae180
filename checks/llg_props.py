"""C29 (law of motion) and C30 (dissipation and convergence in time)."""
import random
import vf, llg

NOTES = {
    "C29": {"note": "Llg.tla defines the discrete Landau-Lifshitz-Gilbert equation at a node in integers; TLC checks on small meshes that its forces are the "
                    "gradients of the energies of MeshModel and that the motion is tangent. The first step of many runs of the program (each term alone and in "
                    "combination, several regions, dampings, scales, after a rest, space and time fields) is compared node by node by TLC. Bound: one step of 1e-4 to 1e-3 rad, 0.5 %."},
    "C30": {"note": "TLC compares the final states at steps h, h/2, h/4, the energies of consecutive rows and the dissipation computed from the saved configurations. "
                    "Bounds: 10 to 40 steps; rate without the demagnetizing field (its discrete field is not an exact gradient)."},
}


def c29():
    ck = vf.Check("C29", "model_checking")
    q = not vf.thorough()
    exe = vf.Tree().feellgood()
    with vf.Scratch("C29") as d:
        m = llg.explore(d, 1 if q else 2)
        ck.add(model_states=m.distinct)
        rng = random.Random(vf.SEED * 37 + 29)
        T = llg.Step.TERMS
        runs = [llg.Step(rng, [t]) for t in T for _ in range(15 if q else 60)]
        runs += [llg.Step(rng) for _ in range(100 if q else 600)]
        ck.add(samples=[runs[i].describe() for i in (0, -1)])
        llg.campaign(runs, exe, d, ck, ("C29.",))
    return ck.finish()


def c30():
    ck = vf.Check("C30", "model_checking")
    q = not vf.thorough()
    exe = vf.Tree().feellgood()
    with vf.Scratch("C30") as d:
        rng = random.Random(vf.SEED * 37 + 30)
        runs = [llg.Macrospin(rng) for _ in range(60 if q else 200)]
        runs += [llg.Time(rng) for _ in range(60 if q else 200)]
        runs += [llg.Decay(rng, [t for t in llg.Step.TERMS[:5] if rng.random() < 0.5] or ["exchange"]) for _ in range(240 if q else 2400)]
        ck.add(samples=[runs[i].describe() for i in (0, -1)])
        llg.campaign(runs, exe, d, ck, ("C30.",))
    return ck.finish()


CHECKS = {"C29": c29, "C30": c30}
