"""C23 (recentering)."""
import random
import vf, recenter

NOTES = {
    "C23": {"note": "Recenter.tla defines when and how a wall is brought back to the middle of a wire; TLC checks for every position of a wall that the result is centred, keeps the wall and "
                    "invents nothing, then checks each pair of consecutive saved configurations of runs of the program whose steps are too short to move anything. "
                    "Bounds: wires of 4 to 8 cells, 2 to 5 steps, grids along the wire."},
}


def c23():
    ck = vf.Check("C23", "model_checking")
    q = not vf.thorough()
    exe = vf.Tree().feellgood()
    with vf.Scratch("C23") as d:
        ck.add(model_states=recenter.explore(d, 6 if q else 12))
        rng = random.Random(vf.SEED * 43 + 23)
        runs = [recenter.Case(rng) for _ in range(500 if q else 5000)]
        ck.add(samples=[runs[i].describe() for i in (0, -1)])
        recenter.campaign(runs, exe, d, ck, ("C23.",))
    return ck.finish()


CHECKS = {"C23": c23}
