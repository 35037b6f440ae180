---------------------------- MODULE RecenterTrace ----------------------------
(***************************************************************************)
(* The real program against Recenter: T.m, T.ax, T.thr, T.on, T.rc,        *)
(* T.expect (rows asked for), T.rows: the magnetization of the saved       *)
(* configurations, one time step apart (too short to move anything), in    *)
(* 5th; T.exact: they are such multiples.                                  *)
(* What is saved after a step is the state before the translation; it may  *)
(* as well be the state after it (row 0 to 1).                             *)
(***************************************************************************)
EXTENDS Recenter, Verdict
VARIABLES tid, done
T == Traces[tid]
M == T.m
Same(a, b) == \A i \in MagNodes(M) : a[i] = b[i]
Moved(a, b) == Wall(M, a, T.ax) /\ \E s \in EndValues(M, a, T.ax, Lo(M, T.ax)) : LET R == Trip(M, a, T.ax, s) IN \A i \in R.mag : \E j \in Sources(M, R, T.ax, i) : b[i] = a[j]
Follows(k) == LET a == T.rows[k] b == T.rows[k + 1] IN
    IF Same(a, b) THEN ~T.on \/ k = 1 \/ Under(M, a, T.ax, T.thr) \/ Moved(a, b)
    ELSE T.on /\ Over(M, a, T.ax, T.thr) /\ Moved(a, b)
(* the translation of a state of many walls may leave the same sign at both ends *)
MayLose(a) == /\ Over(M, a, T.ax, T.thr) /\ Wall(M, a, T.ax)
              /\ \E s \in EndValues(M, a, T.ax, Lo(M, T.ax)) :
                 LET R == Trip(M, a, T.ax, s)
                     Signs(E) == {Sign(a[j][T.ax]) : j \in UNION {Sources(M, R, T.ax, i) : i \in E}}
                 IN  Signs(R.el) \cap Signs(R.eh) # {} \/ 0 \in Signs(R.el) \cup Signs(R.eh)
Fails == T.on /\ Len(T.rows) > 0 /\ LET a == T.rows[Len(T.rows)] IN ((Over(M, a, T.ax, T.thr) /\ NoWall(M, a, T.ax)) \/ MayLose(a))
Surely == T.on /\ Len(T.rows) > 0 /\ LET a == T.rows[Len(T.rows)] IN ~Under(M, a, T.ax, T.thr) /\ ~Wall(M, a, T.ax)
Bad == Chk("C23.exact", T.exact)
       \cup Chk("C23.complete", T.rc = 0 => Len(T.rows) = T.expect /\ ~Surely)
       \cup Chk("C23.fails", T.rc # 0 => Fails)
       \cup (IF T.exact THEN UNION {Chk("C23.follows", Follows(k)) : k \in 1 .. Len(T.rows) - 1} ELSE {})
Init == tid \in 1 .. Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid /\ Report(tid, Bad)
Spec == Init /\ [][Next]_<<tid, done>>
==============================================================================
