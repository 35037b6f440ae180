----------------------------- MODULE TimeLoopMC -----------------------------
(***************************************************************************)
(* The concrete time loop: the step-size algorithm of the code, with every *)
(* outcome of every attempt, a signal at every point, and every            *)
(* configuration of a small set.  TLC checks that it satisfies what        *)
(* TimeLoop requires (so that a recorded run rejected by TimeLoopTrace is  *)
(* not a behaviour of this algorithm), that the rows and snapshots are the *)
(* required ones, that it always ends, and that it ends well when the      *)
(* attempts succeed.  It also prints the scripts of outcomes that the real *)
(* program is made to replay.                                              *)
(***************************************************************************)
EXTENDS TimeLoop, TLC

CONSTANTS Cfgs,      \* set of configurations (records c plus init)
          Outs,      \* outcomes: records [o, num, den]: du = max(du)*num/den, or fail
          MaxScript, \* number of attempts whose outcome is free; later ones succeed slowly
          Signals,   \* whether signals are explored
          Emit       \* print the scripts at the end of every behaviour

VARIABLES c, S, soft, dt, pc, rows, snaps, acc, script, sigAt, exitf, status

vars == <<c, S, soft, dt, pc, rows, snaps, acc, script, sigAt, exitf, status>>

Quiet == [o |-> "ok", num |-> 3, den |-> 10]

Init ==
    /\ c \in Cfgs
    /\ S = [now |-> c.t0, st |-> 0, k |-> 0, phase |-> "run", lastDt |-> 0, lastRej |-> FALSE,
            lim |-> c.init, sig |-> 0]
    /\ soft = c.init /\ dt = c.init /\ pc = "loop"
    /\ rows = <<>> /\ snaps = {} /\ acc = <<[t |-> c.t0, st |-> 0]>> /\ script = <<>>
    /\ sigAt = [n |-> -1, where |-> "none"] /\ exitf = [t |-> -1, st |-> -1] /\ status = -1

(* A signal may arrive once, at any of the points named here.              *)
Arrive(where) ==
    /\ Signals /\ S.sig = 0 /\ S.phase = "run" /\ sigAt.n = -1
    /\ sigAt' = [n |-> Len(script), where |-> where]
    /\ S' = [S EXCEPT !.sig = 15]
    /\ UNCHANGED <<c, soft, dt, pc, rows, snaps, acc, script, exitf, status>>

WriteRow ==
    /\ pc = "loop" /\ S.k <= c.K /\ S.now >= Target(c, S.k)
    /\ rows' = Append(rows, Row(c, S))
    /\ snaps' = snaps \cup (IF SnapDue(c, S.k) THEN {[n |-> S.k, t |-> S.now, st |-> S.st]} ELSE {})
    /\ S' = AfterRow(c, S)
    /\ UNCHANGED <<c, soft, dt, pc, acc, script, sigAt, exitf, status>>

Finish ==
    /\ pc = "loop" /\ S.k = c.K + 1
    /\ S' = [S EXCEPT !.phase = "done"] /\ status' = 0 /\ pc' = "end"
    /\ UNCHANGED <<c, soft, dt, rows, snaps, acc, script, sigAt, exitf>>

Poll ==
    /\ pc = "loop" /\ S.k <= c.K /\ S.now < Target(c, S.k)
    /\ IF S.sig # 0
       THEN /\ S' = [S EXCEPT !.phase = "killed"] /\ pc' = "end" /\ status' = S.sig
            /\ exitf' = ExitFile(c, S)
       ELSE /\ pc' = "size" /\ UNCHANGED <<S, exitf, status>>
    /\ UNCHANGED <<c, soft, dt, rows, snaps, acc, script, sigAt>>

(* The algorithm of the code (integer ticks).                              *)
Size ==
    /\ pc = "size"
    /\ LET stride == Stride(c, S)
           s0 == Min2(stride, soft)
           s1 == IF s0 > stride - 2 * c.dtmin /\ s0 < stride
                 THEN Max2(stride - 2 * c.dtmin, Min2(s0, stride \div 2)) ELSE s0
       IN  /\ dt' = s1
           /\ soft' = Max2(soft, Min2((s1 * 11) \div 10, c.dtmax))
           /\ IF s1 < c.dtmin
              THEN /\ pc' = "end" /\ S' = [S EXCEPT !.phase = "abort"] /\ status' = 1
              ELSE /\ pc' = "try" /\ UNCHANGED <<S, status>>
    /\ UNCHANGED <<c, rows, snaps, acc, script, sigAt, exitf>>

Try ==
    /\ pc = "try"
    /\ \E o \in (IF Len(script) < MaxScript THEN Outs ELSE {Quiet}) :
        LET kind == IF o.o = "fail" THEN "fail" ELSE IF o.num > o.den THEN "fast" ELSE "ok"
            newlim == IF kind = "fail" THEN dt \div 2 ELSE (95 * dt * o.den) \div (100 * o.num)
            trial == Len(script) + 1
        IN  /\ S' = AfterTry(c, S, dt, kind, trial, newlim)
            /\ soft' = Min2(soft, newlim)
            /\ acc' = IF kind = "ok" THEN Append(acc, [t |-> S.now + dt, st |-> trial]) ELSE acc
            /\ script' = Append(script, o)
    /\ pc' = "loop"
    /\ UNCHANGED <<c, dt, rows, snaps, sigAt, exitf, status>>

Done ==
    /\ pc = "end" /\ UNCHANGED vars

Next == WriteRow \/ Finish \/ Poll \/ Size \/ Try \/ Done
        \/ (pc = "try" /\ Arrive("solve")) \/ (pc = "loop" /\ Arrive("between"))

Spec == Init /\ [][Next]_vars /\ WF_vars(WriteRow \/ Finish \/ Poll \/ Size \/ Try)

-----------------------------------------------------------------------------
(* What is checked.                                                        *)
TypeOK == S.phase \in {"run", "done", "abort", "killed"} /\ S.k \in 0 .. c.K + 1
GridInv == \A i \in 1 .. Len(rows) : rows[i].iter = i - 1 /\ rows[i].t = c.t0 + (i - 1) * c.step
NeverBeyond == S.k <= c.K => S.now <= Target(c, S.k)
AccInv == S.now = acc[Len(acc)].t /\ S.st = acc[Len(acc)].st
StepInv == pc = "try" => InBounds(c, dt) /\ NotBeyond(c, S, dt) /\ Remainder(c, S, dt) /\ Shrinks(c, S, dt)
AbortInv == S.phase = "abort" => ~Feasible(c, S)
SnapInv == snaps = {[n |-> k, t |-> Target(c, k), st |-> rows[k + 1].st] : k \in SnapsUpTo(c, S.k)}
SigInv == S.phase = "killed" => exitf = ExitFile(c, S)
SigStops == (S.sig # 0 /\ sigAt.n >= 0) => Len(script) <= sigAt.n + 1
DoneInv == S.phase = "done" => status = 0 /\ Len(rows) = c.K + 1
(* With only accepted attempts the program ends well.                      *)
AllOk == \A i \in 1 .. Len(script) : script[i].o = "ok" /\ script[i].num * 2 <= script[i].den
OkDone == (S.phase = "abort" /\ c.init >= 2 * c.dtmin /\ c.step >= c.dtmin) => ~AllOk
Terminates == <>(pc = "end")

Out(o) == <<o.o, o.num, o.den>>
EmitInv == (Emit /\ pc = "end") =>
    PrintT("SCRIPT " \o ToString(<<c.name, S.phase, sigAt.n, sigAt.where, [i \in 1 .. Len(script) |-> Out(script[i])]>>))
=============================================================================
