"""C01 - C05 and C26: the time loop."""
import vf, timeloop


def make(prop):
    def run():
        ck = vf.Check(prop, "model_checking")
        th = vf.thorough()
        tree = vf.Tree()
        exe, wrapped = tree.feellgood_scripted()
        with vf.Scratch(prop) as d:
            r0 = timeloop.model_termination(d)
            r1, scripts = timeloop.explore(d, 5 if th else 3, True)
            ck.add(model_states=r0.distinct + r1.distinct, scripts_enumerated=len(scripts), wrapped=wrapped)
            n = (4000, 2000, 800) if th else (500, 300, 120)
            for k in range(3 if th else 1):
                timeloop.campaign(prop, vf.SEED + 7919 * k + int(prop[1:]), scripts, *n, exe, d, ck, blind=not wrapped)
        ck.assume += ["the outcomes of the linear solves are scripted in part of the runs (link-time wrapper); the others are real",
                      "ScalFMM is replaced by a direct sum"]
        return ck.finish()
    return run


CHECKS = {p: make(p) for p in ("C01", "C02", "C03", "C04", "C05", "C26")}

_N = ("TLC explores exhaustively the step-size algorithm with every outcome of the first steps and a signal at every point, on 12 "
      "configurations (and a grid of 384 small ones), and checks it against the requirements of TimeLoop.tla. The scripts it enumerates, random "
      "ones and runs with real solves are executed by the real program; the recorded attempts, rows, snapshots, exit status and summary are "
      "validated by TLC against the same definitions. Bounded: sampled scripts, small meshes; trusts the wrapper of the linear solve and the ScalFMM stand-in.")
NOTES = {p: {"note": _N} for p in CHECKS}
