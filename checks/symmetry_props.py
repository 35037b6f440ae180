"""C14, C27: descriptions of one system; magnetostatics."""
import random
import vf, symmetry as sy

KINDS = [["renumber"], ["elements"], ["regions"], ["flip", "elements"], ["threads"], ["split"], ["shift"], ["rotate"],
         ["renumber", "elements", "regions", "flip", "threads"], ["renumber", "elements", "split", "regions"], ["rotate", "renumber", "elements", "flip", "shift", "regions", "split"]]


def c14():
    ck = vf.Check("C14", "model_checking")
    exe = vf.Tree().feellgood()
    g = random.Random(vf.SEED * 37 + 14)
    with vf.Scratch("C14") as d:
        r = sy.explore(d, 7 if vf.thorough() else 5)
        ck.add(model_states=r.distinct)
        runs = [sy.Pair(g, "C14", KINDS[i % len(KINDS)], steps=g.choice([1, 3, 8])) for i in range(2200 if vf.thorough() else 330)]
        sy.campaign(runs, exe, d, ck, ("C14.",))
        ck.add(samples=[runs[i].describe() for i in (0, 10)])
    return ck.finish()


def c27():
    ck = vf.Check("C27", "model_checking")
    exe = vf.Tree().feellgood()
    g = random.Random(vf.SEED * 37 + 27)
    with vf.Scratch("C27") as d:
        r = sy.explore(d, 7 if vf.thorough() else 4)
        ck.add(model_states=r.distinct)
        k = 8 if vf.thorough() else 1
        runs = [sy.Linear(g, "C27") for _ in range(120 * k)] + [sy.Dipole(g, "C27") for _ in range(40 * k)] + [sy.Refine(g, "C27") for _ in range(40 * k)]
        runs += [sy.Pair(g, "C27", w, steps=0) for w in (["rotate"], ["rotate", "renumber", "elements", "flip", "shift"], ["split"], ["units"]) for _ in range(20 * k)]
        sy.campaign(runs, exe, d, ck, ("C27.potential", "C27.E_demag", "C27.superposition", "C27.far", "C27.run", "C27.saved", "C27.sum", "C27.converges", "C27.positive", "C27.range"))
        ck.add(samples=[runs[i].describe() for i in (0, 130)])
    return ck.finish()


CHECKS = {"C14": c14, "C27": c27}
NOTES = {
    "C14": {"note": "Symmetry.tla defines the transformations of a described system (MeshModel) that keep it the same, and how scalars, vectors and node values follow; TLC checks on all sequences of "
                    "generators that the modelled volumes, charges, energies and averages do (SymmetryMC). The real program runs both descriptions of random systems for several steps with all the terms; TLC "
                    "verifies that the second is a transform of the first, and compares every row and saved configuration. Bounded: meshes of at most 72 elements, rotations of the cube; rotated systems agree "
                    "within the accuracy of the multipole method."},
    "C27": {"note": "The sources (charges of elements and faces) are computed exactly by TLC from MeshModel; for sets of systems whose sources cancel with integer factors, the potentials saved by the real program "
                    "have to cancel (superposition over regions, suppressed surfaces, directions). Far potentials against the moment computed by TLC, demagnetizing factors summing to one under refinement, "
                    "invariance under rotation, renumbering, division of a region, similarity of units. Bounded: static states; the discretization error is accepted."}}
