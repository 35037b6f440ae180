---------------------------- MODULE TimeLoopTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded runs of the real program with TimeLoop.         *)
(* A trace is                                                              *)
(*   c    the configuration                                                *)
(*   att  the attempts: t, dt as seen by the solver, rows and snapshots    *)
(*        already on disk, outcome, limit it implies, configuration before *)
(*        (cur), trial configuration (trial), signal received during it,   *)
(*        signals received since the previous attempt (before)             *)
(*   fin  the end: how, status, rows, snapshots and exit file on disk,     *)
(*        statistics printed, signals received after the last attempt      *)
(* Configurations are compared in advance and numbered: equal numbers are  *)
(* equal configurations.                                                   *)
(***************************************************************************)
EXTENDS TimeLoop, Verdict

VARIABLES tid, i, S, bad, exp, good, rej

vars == <<tid, i, S, bad, exp, good, rej>>
T == Traces[tid]
C == T.c
Near(a, b) == Abs(a - b) <= C.tol

(* The rows that are due are written before the next event.  exp is the    *)
(* sequence of expected rows.                                              *)
RECURSIVE Flush(_, _)
Flush(s, r) == IF RowDue(C, s) THEN Flush(AfterRow(C, s), Append(r, Row(C, s))) ELSE <<s, r>>

Start ==
    LET s0 == [now |-> C.t0, st |-> T.init, k |-> 0, phase |-> "run", lastDt |-> 0, lastRej |-> FALSE,
               lim |-> C.init, sig |-> 0]
    IN  Flush(s0, <<>>)

Init ==
    /\ tid \in 1 .. Len(Traces)
    /\ i = 1 /\ bad = {}
    /\ IF T.blind
       THEN \* only the files of the run are known: the rows stand for the accepted configurations
            LET n == IF T.fin.how = "done" THEN C.K + 1 ELSE Len(T.fin.rows)
            IN  /\ exp = [j \in 1 .. n |-> [iter |-> j - 1, t |-> Target(C, j - 1),
                                            st |-> IF j <= Len(T.fin.rows) THEN T.fin.rows[j].st ELSE -1]]
                /\ S = [Start[1] EXCEPT !.k = n, !.now = Target(C, n - 1)]
       ELSE S = Start[1] /\ exp = Start[2]
    /\ good = 0 /\ rej = 0

Attempt ==
    /\ i <= Len(T.att)
    /\ LET e == T.att[i]
           s == [S EXCEPT !.sig = IF @ # 0 THEN @ ELSE e.before]
           f == Flush(AfterTry(C, s, e.dt, e.out, e.trial, e.lim), exp)
       IN  /\ bad' = bad
                \cup Chk("C02.time", Near(e.t, s.now))
                \cup Chk("C02.state", e.cur = s.st)
                \cup Chk("C04.stop", s.sig = 0)
                \cup Chk("C01.late", s.k <= C.K)
                \cup Chk("C01.rows", e.rows = s.k)
                \cup Chk("C05.when", e.snaps = Cardinality(SnapsUpTo(C, s.k)))
                \cup Chk("C03.bounds", InBounds(C, e.dt))
                \cup Chk("C03.beyond", NotBeyond(C, s, e.dt))
                \cup Chk("C03.remainder", Remainder(C, s, e.dt))
                \cup Chk("C03.shrink", Shrinks(C, s, e.dt))
           /\ S' = [f[1] EXCEPT !.sig = IF @ # 0 THEN @ ELSE e.sig]
           /\ exp' = f[2]
           /\ good' = good + (IF e.out = "ok" THEN 1 ELSE 0)
           /\ rej' = rej + (IF e.out # "ok" THEN 1 ELSE 0)
    /\ i' = i + 1 /\ UNCHANGED tid

RowOK(r, x) == r.iter = x.iter /\ Near(r.t, x.t) /\ r.exact

End ==
    /\ i = Len(T.att) + 1
    /\ LET e == T.fin
           s == [S EXCEPT !.sig = IF @ # 0 THEN @ ELSE e.before]
           n == Len(e.rows)
           how == e.how
       IN  bad' = bad
            \* the rows on disk are the expected ones, in order
            \cup Chk("C01.count", n = Len(exp))
            \cup UNION {Chk("C01.row", RowOK(e.rows[j], exp[j])) : j \in 1 .. (IF n < Len(exp) THEN n ELSE Len(exp))}
            \cup UNION {Chk("C02.row", e.rows[j].st = exp[j].st) : j \in 1 .. (IF n < Len(exp) THEN n ELSE Len(exp))}
            \* the snapshots are those of the rows that are due, with their time and configuration
            \cup Chk("C05.set", {e.snaps[j].n : j \in 1 .. Len(e.snaps)} = SnapsUpTo(C, Len(exp))
                                 /\ Len(e.snaps) = Cardinality(SnapsUpTo(C, Len(exp))))
            \cup UNION {LET x == e.snaps[j] IN
                        Chk("C05.content", x.n \in 0 .. Len(exp) - 1 =>
                                /\ Abs(x.t - exp[x.n + 1].t) <= C.soltol /\ x.st = exp[x.n + 1].st /\ x.whole)
                        : j \in 1 .. Len(e.snaps)}
            \* the end
            \cup (CASE how = "done" -> Chk("C01.end", AllRows(C, s)) \cup Chk("C03.status", e.status = 0)
                                     \cup Chk("C04.done", s.sig # 0 => AllRows(C, s))
                    [] how = "killed" -> Chk("C04.spurious", MayDie(C, s)) \cup Chk("C04.status", e.status = s.sig)
                    [] how = "abort" -> Chk("C03.abort", T.blind \/ MayAbort(C, s)) \cup Chk("C04.ignored", s.sig = 0)
                    [] how = "hang" -> {"C03.hang"}
                    [] OTHER -> {"C01.crash", "C02.crash", "C03.crash", "C04.crash", "C05.crash"})
            \* a run in which nothing fails or moves too fast completes
            \cup Chk("C01.calm", T.calm => how = "done") \cup Chk("C03.calm", T.calm => how = "done")
            \* what is saved at the exit is what was accepted
            \cup Chk("C02.exit", (how = "killed" /\ e.exit.present /\ e.exit.whole /\ ~T.blind) =>
                                     /\ Abs(e.exit.t - s.now) <= C.soltol /\ e.exit.st = s.st)
            \cup Chk("C04.file", IF how = "killed" /\ C.period > 0
                                 THEN e.exit.present /\ Abs(e.exit.t - s.now) <= C.soltol /\ e.exit.st = s.st /\ e.exit.whole
                                 ELSE ~e.exit.present)
            \* the summary
            \cup (IF T.blind THEN {} ELSE IF e.stats THEN Chk("C26.good", e.good = good) \cup Chk("C26.bad", e.bad = rej)
                                  \cup Chk("C26.mean", e.meansok)
                             ELSE Chk("C26.missing", how \notin {"done", "abort", "killed"}))
    /\ i' = i + 1 /\ UNCHANGED <<tid, S, exp, good, rej>>

Tell == i = Len(T.att) + 2 /\ Report(tid, bad) /\ i' = i + 1 /\ UNCHANGED <<tid, S, bad, exp, good, rej>>
Stop == i = Len(T.att) + 3 /\ UNCHANGED vars

Next == Attempt \/ End \/ Tell \/ Stop
Spec == Init /\ [][Next]_vars
==============================================================================
