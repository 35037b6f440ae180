"""C25 (command line)."""
import random
import vf, cli

NOTES = {
    "C25": {"note": "Cli.tla says what each command line does in each world (what the settings, the standard input, the personal defaults and the output directory hold). TLC checks it against a "
                    "word by word reader for all command lines of up to 4 words; then all real command lines of up to 2 words (3 in thorough) and random ones are run in scratch directories and "
                    "compared with it, and simulations are repeated in several ways."},
}


def c25():
    ck = vf.Check("C25", "model_checking")
    q = not vf.thorough()
    exe = vf.Tree().feellgood()
    with vf.Scratch("C25") as d:
        m = cli.explore(d, 4 if q else 5)
        ck.add(model_states=m.distinct)
        rng = random.Random(vf.SEED * 47 + 25)
        runs = [cli.Line(rng, a) for a in cli.enumerated(2 if q else 3)]
        runs += [cli.Line(rng) for _ in range(700 if q else 4000)]
        runs += [cli.Twice(rng) for _ in range(40 if q else 400)]
        ck.add(samples=[runs[i].describe() for i in (20, 400, -1)])
        cli.campaign(runs, exe, d, ck, ("C25.",))
    return ck.finish()


CHECKS = {"C25": c25}
