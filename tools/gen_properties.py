#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, after editing the table)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


NOLOOP = "No test runs the time loop: the unit tests cover single functions, and the executable is not even linked in the test build."

prop("C01", "Evolution file has one row per output time, exactly on the grid",
     "A run that ends with status 0 leaves in the .evol file exactly one row for each output time t0 + k*evol_time_step, k = 0, 1, ..., up to the final time, in order, with these exact times whatever integration steps were taken in between. A run cut short (aborted or stopped by a signal) leaves the rows of the output times it reached, complete, and no other. A row is on disk before the program starts integrating beyond its time.",
     ["histories", "configurations", "fault_sequences"], "every sequence of accepted, rejected and failed integration steps; every ratio of evol_time_step, min(dt), max(dt) and initial time",
     NOLOOP, ["src/time_integration.cpp", "src/save.cpp"],
     [("loop over the visible steps and snapping to the target time", "time_integration.cpp: Fem::time_integration"), ("row writer", "save.cpp: Fem::saver")],
     [("current time", "time reached by the accepted steps", "time_integration.h")], [".evol file"])
prop("C02", "Time and magnetization advance only through accepted steps",
     "The simulated time and the magnetization change only when an integration step is accepted, i.e. when the linear solve succeeded and no magnetization vector moved by more than max(du); an accepted step makes its result the new magnetization and adds its duration to the time. A step that fails or moves too fast leaves time and magnetization exactly as they were before it, however many such steps follow one another. Every row of the .evol file shows the accepted magnetization of its time.",
     ["histories", "fault_sequences"], "every interleaving of accepted steps, solver failures and too-fast steps",
     NOLOOP + " A rejection needs a solver failure or a fast magnetization at a given step.", ["src/time_integration.cpp", "src/node.h", "src/mesh.h"],
     [("retry without advancing", "time_integration.cpp: Fem::time_integration"), ("CURRENT/NEXT copies of the node data", "node.h")],
     [("CURRENT and NEXT", "magnetization before and after the step", "node.h")], [".evol file", ".sol files"])
prop("C03", "Integration steps stay within their limits and the run always ends",
     "Every integration step that is tried is between min(dt) and max(dt), does not go beyond the next output time, and never leaves before it a rest shorter than min(dt); after a rejected or failed step the next one tried is shorter. The run always ends: with status 0 after the last output time, or aborted with status 1, and it aborts only if the limit set by the last steps (half of a failed step, 0.95*max(du)/speed) leaves no admissible step of at least min(dt).",
     ["histories", "configurations", "fault_sequences"], "every sequence of outcomes of the steps, every evol_time_step >= min(dt) and every min(dt) <= max(dt)",
     NOLOOP + " The corner cases depend on the ratio of three durations and on the history of the step.", ["src/time_integration.cpp", "src/time_integration.h"],
     [("step size selection", "time_integration.cpp: TimeStepper"), ("abort", "time_integration.cpp: bailout")],
     [("soft limit", "largest step thought acceptable", "time_integration.cpp")], ["exit status", "verbose output"])
prop("C04", "SIGINT/SIGTERM stop the run cleanly and save the accepted state",
     "When SIGINT or SIGTERM arrives at any point of the integration, no further integration step is started after the one in progress, the rows and snapshots already due are complete, and, if work remained, the process terminates by that same signal. If snapshots are enabled, it first writes <basename>_at_exit.sol with the last accepted magnetization of all nodes and its time, also when the signal came in the middle of a step that gets rejected; otherwise no such file is written. Without a signal no such file ever appears.",
     ["crash_points", "schedules", "histories"], "every arrival point of the signal: during a solve, between steps, while writing, during the initial computation; every outcome of the step in progress",
     NOLOOP + " No test sends a signal.", ["src/main.cpp", "src/time_integration.cpp", "src/save.cpp"],
     [("signal flag", "main.cpp: signal_handler"), ("polling before each step", "time_integration.cpp: exit_if_signal_received")],
     [("received_signal", "pending signal", "main.cpp")], ["_at_exit.sol", "wait status"])
prop("C05", "Snapshots appear exactly at the requested output times, with their state",
     "The file <basename>_iterN.sol exists for exactly the output times N written so far that are multiples of mag_config_every (none if it is false, 0 or negative), in the output directory. Each one carries the time of row N and the magnetization of all the mesh nodes at that time, and is complete before the integration goes on.",
     ["histories", "configurations"], "every mag_config_every, number of output times, history of steps, mesh, and way of ending",
     NOLOOP, ["src/save.cpp", "src/time_integration.cpp", "src/settings.cpp"],
     [("snapshot period", "save.cpp: Fem::saver"), ("snapshot writer", "save.cpp: mesh::savesol")], [], ["_iterN.sol files"])
prop("C26", "The step statistics printed at the end match the steps of the run",
     "The summary printed at the end of a run (completed, aborted, or stopped by a signal) counts as successful exactly the accepted integration steps and as failed exactly those rejected or failed, with the geometric mean and relative deviation of their durations and of their magnetization variation. The maximum magnetization angle printed is the largest angle between the magnetizations of two adjacent nodes of the magnetic regions over the initial and all accepted configurations.",
     ["histories", "fault_sequences"], "every sequence of accepted, rejected and failed steps, every end of the run",
     NOLOOP, ["src/time_integration.cpp", "src/log-stats.h", "src/mesh.h"],
     [("statistics", "time_integration.cpp: Stats, print_stats"), ("max_angle", "mesh.h")], [], ["standard output"])

exec(open(os.path.join(HERE, "tools", "more_properties.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more_properties.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

# ------------------------------------------------------------------ manifest
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import importlib
built = {}
for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
    if f.endswith(".py"):
        m = importlib.import_module(f[:-3])
        for k in m.CHECKS:
            built[k] = getattr(m, "NOTES", {}).get(k, {})
checks, na = [], []
for p in P:
    if p["id"] in built:
        b = built[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="bin/check " + p["id"], thorough_cmd="bin/check %s --thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=b.get("technique", "TLA+ specification checked with TLC, bound to the code by replay of TLC behaviours and validation of recorded traces with TLC"),
                           level=b.get("level", "model_checking"), level_note=b.get("note", "")))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet") if "NA" in globals() else "check not built yet"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the drivers in harness/ observe the unmodified sources (link-time wrapping, ScalFMM stand-in in stub/)."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "claimed")
