"""C21 (electric current) and C22 (spin accumulation)."""
import random
import vf, transport

NOTES = {
    "C21": {"note": "Transport.tla states Kirchhoff's law at the nodes of a meshed conductor in integers; TLC checks that it creates nothing, is symmetric and dissipates, and then checks the "
                    "potential saved by runs of the program on many meshes (regions, conductivities, surfaces, scales), node by node. Bound: 12 to 72 tetrahedra, 0.4 % of a unit."},
    "C22": {"note": "Transport.tla states the spin diffusion at the nodes and the field it makes; TLC checks each saved configuration of runs of the program (initial, and after several steps), "
                    "the first motion, and that incorrect boundary conditions are refused without output. Bounds: 12 to 72 tetrahedra, up to 5 steps."},
}


def _run(pid, labels, salt, n1, n5, nw):
    ck = vf.Check(pid, "model_checking")
    q = not vf.thorough()
    exe = vf.Tree().feellgood()
    with vf.Scratch(pid) as d:
        m = transport.explore(d, 1 if q else 2)
        ck.add(model_states=m.distinct)
        rng = random.Random(vf.SEED * 41 + salt)
        k = 1 if q else 8
        runs = [transport.Case(rng, steps=1) for _ in range(n1 * k)] + [transport.Case(rng, steps=5) for _ in range(n5 * k)]
        runs += [transport.Case(rng, wrong=True) for _ in range(nw * k)]
        ck.add(samples=[runs[i].describe() for i in (0, -1)])
        transport.campaign(runs, exe, d, ck, labels)
    return ck.finish()


def c21():
    return _run("C21", ("C21.",), 21, 250, 20, 30)


def c22():
    return _run("C22", ("C22.", "C21.run"), 22, 120, 120, 80)


CHECKS = {"C21": c21, "C22": c22}
