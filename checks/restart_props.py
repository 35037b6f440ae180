"""C07, C08: saved configurations and the time a run starts at."""
import random
import vf, restart as rs


def c07():
    ck = vf.Check("C07", "model_checking")
    exe = vf.Tree().feellgood()
    g = random.Random(vf.SEED * 31 + 7)
    with vf.Scratch("C07") as d:
        r, fs = rs.enumerate_files(d, 2 if vf.thorough() else 1)
        ck.add(model_states=r.distinct, files_enumerated=len(fs))
        runs = [rs.File(g, f) for f in g.sample(fs, min(len(fs), 9000 if vf.thorough() else 2500))]
        runs += [rs.Pair(g, "C07") for _ in range(1500 if vf.thorough() else 200)]
        rs.campaign(runs, exe, d, ck, ("C07.",))
        ck.add(samples=[c.describe() for c in runs[:2]])
    return ck.finish()


def c08():
    ck = vf.Check("C08", "model_checking")
    exe = vf.Tree().feellgood()
    g = random.Random(vf.SEED * 31 + 8)
    with vf.Scratch("C08") as d:
        r, fs = rs.enumerate_files(d, 1)
        ck.add(model_states=r.distinct, files_enumerated=len(fs))
        runs = [rs.File(g, f) for f in g.sample(fs, 2000 if vf.thorough() else 800)]
        runs += [rs.Pair(g, "C08") for _ in range(600 if vf.thorough() else 100)]
        runs += [rs.Plain(g) for _ in range(40)] + [rs.Resume(g) for _ in range(600 if vf.thorough() else 60)]
        rs.campaign(runs, exe, d, ck, ("C08.",))
        ck.add(samples=[c.describe() for c in runs[:2]])
    return ck.finish()


CHECKS = {"C07": c07, "C08": c08}
_N = ("Restart.tla defines which sequences of lines load, and the state and time they give; TLC checks round trip and faithfulness on all the files at a few edits from a saved one "
      "(RestartMC), and these files are given to the real program. Snapshots of random dynamic runs are loaded by a second run that saves at once. TLC compares (RestartTrace). "
      "Bounded: two edits; 7 digits as saved; a resumed evolution is compared within 0.8%.")
NOTES = {p: {"note": _N} for p in CHECKS}
