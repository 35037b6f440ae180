------------------------------ MODULE TimeLoop ------------------------------
(***************************************************************************)
(* The time loop of feeLLGood, as seen from outside: attempts to advance   *)
(* the magnetization by a time step, rows of the .evol file, snapshots,    *)
(* signals, and the way the program ends.                                  *)
(*                                                                         *)
(* Times are integers (ticks).  A magnetization configuration is an opaque *)
(* value.  A run is described by                                           *)
(*   c = [t0, step, K, dtmin, dtmax, period, tol]                          *)
(*     t0 + k*step, k = 0..K, are the times of the rows; tol is the        *)
(*     tolerance on times (0 in the models, the rounding unit in traces);  *)
(*     period is mag_config_every (0: no snapshots)                        *)
(*   S = [now, st, k, phase, lastDt, lastRej, lim, sig]                    *)
(*     now, st : time and configuration reached by the accepted attempts   *)
(*     k       : number of rows written, that is the index of the next one *)
(*     lastDt  : last step tried; lastRej : whether it was rejected        *)
(*     lim     : largest step the history certainly allows                 *)
(*     sig     : pending signal, 0 if none                                 *)
(*                                                                         *)
(* Every definition is used twice: by the models that TLC explores         *)
(* (TimeLoopMC, Stepper), and by the conformance of recorded runs          *)
(* (TimeLoopTrace).                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

Target(c, k) == c.t0 + k * c.step
Stride(c, S) == Target(c, S.k) - S.now
AtTarget(c, S) == Abs(Stride(c, S)) <= c.tol

(* Row k is due when its time is reached; rows are written before anything *)
(* else happens.                                                           *)
RowDue(c, S) == S.phase = "run" /\ S.k <= c.K /\ AtTarget(c, S)
AllRows(c, S) == S.k = c.K + 1
SnapDue(c, k) == c.period > 0 /\ k % c.period = 0
SnapsUpTo(c, n) == IF c.period = 0 THEN {} ELSE {k \in 0 .. n - 1 : k % c.period = 0}

Row(c, S) == [iter |-> S.k, t |-> Target(c, S.k), st |-> S.st]

(* An attempt may start.                                                   *)
MayTry(c, S) == S.phase = "run" /\ S.k <= c.K /\ ~AtTarget(c, S) /\ S.sig = 0

(* The steps that may be tried: within the bounds, never beyond the next   *)
(* row, never leaving a remainder that cannot be covered; smaller than a   *)
(* step that was just rejected.                                            *)
InBounds(c, dt) == dt >= c.dtmin - c.tol /\ dt <= c.dtmax + c.tol
NotBeyond(c, S, dt) == dt <= Stride(c, S) + c.tol
Remainder(c, S, dt) == Abs(Stride(c, S) - dt) <= c.tol \/ Stride(c, S) - dt >= c.dtmin - c.tol
Shrinks(c, S, dt) == S.lastRej => dt < S.lastDt
StepOK(c, S, dt) == InBounds(c, dt) /\ NotBeyond(c, S, dt) /\ Remainder(c, S, dt) /\ Shrinks(c, S, dt)

(* Giving up is legitimate only when the limit known from the last         *)
(* attempts leaves no step in the bounds.  (The second case has no         *)
(* tolerance: both sides come from the configuration, or are rounded in    *)
(* the safe direction.)                                                    *)
Feasible(c, S) ==
    LET s == Stride(c, S)
        l == Min2(S.lim, c.dtmax)
    IN  \/ l >= s + c.tol /\ s >= c.dtmin - c.tol
        \/ S.now = Target(c, S.k - 1) /\ l >= s /\ s >= c.dtmin
        \/ l >= c.dtmin + c.tol /\ s >= 2 * c.dtmin + c.tol
MayAbort(c, S) == MayTry(c, [S EXCEPT !.sig = 0]) /\ ~Feasible(c, S)

(* Effects.  out is "ok", "fast" (moved more than max(du)) or "fail".      *)
(* newlim is the limit that this attempt puts on the next steps.           *)
AfterTry(c, S, dt, out, trial, newlim) ==
    [S EXCEPT !.now = IF out # "ok" THEN @
                      ELSE IF Abs(Stride(c, S) - dt) <= c.tol THEN Target(c, S.k) ELSE @ + dt,
              !.st = IF out = "ok" THEN trial ELSE @,
              !.lastDt = dt,
              !.lastRej = (out # "ok"),
              !.lim = Min2(dt, newlim)]
AfterRow(c, S) == [S EXCEPT !.k = @ + 1]

(* Ends: "done" with status 0, "abort" with status 1, "killed" by the      *)
(* signal; the last one leaves the last accepted configuration behind.     *)
ExitFile(c, S) == IF c.period > 0 THEN [t |-> S.now, st |-> S.st] ELSE [t |-> -1, st |-> -1]
MayFinish(c, S) == S.phase = "run" /\ AllRows(c, S)
MayDie(c, S) == S.phase = "run" /\ S.sig # 0 /\ S.k <= c.K /\ ~AtTarget(c, S)
=============================================================================
