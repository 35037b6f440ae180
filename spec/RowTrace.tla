------------------------------ MODULE RowTrace -------------------------------
(***************************************************************************)
(* Conformance of the later rows of the .evol file.                        *)
(*  - A row describes the state that is saved at the same time: it has to  *)
(*    be the row that the program writes when it starts from that state at *)
(*    that time (same: [c, a, b, tol], the two values).                    *)
(*  - When a single step was made since the previous row, the time step,   *)
(*    the motion and the velocities have to be those that lead from one    *)
(*    saved magnetization to the other: w[i] = 20000 * dt * velocity, as  *)
(*    new = (old + dt * velocity) / |old + dt * velocity|, velocity being  *)
(*    orthogonal to old.                                                   *)
(***************************************************************************)
EXTENDS MeshModel, Verdict
VARIABLES tid, row, bad
T == Traces[tid]
M == T.m
R == T.rows[row]
Axis(c) == CASE c = "<dMx/dt>" -> 1 [] c = "<dMy/dt>" -> 2 [] OTHER -> 3
MaxSq(w) == LET S == {0} \cup {Dot(w[i], w[i]) : i \in MagNodes(M)} IN CHOOSE x \in S : \A y \in S : x >= y
VelBad(x) ==   \* 4 * volume * average = sum over the elements of volume * sum of the nodes
    LET d == 4 * RegVolume6(M, x.r) IN
    IF d = 0 THEN {}
    ELSE Chk("C06." \o x.c, Abs(x.v * d - AvgNum(M, R.w, x.r)[Axis(x.c)]) <= d * (3 + T.slack))
StepBad ==
    IF ~R.one THEN {}
    ELSE Chk("C06.dt", R.dt)
         \cup Chk("C06.max_dm", LET s == MaxSq(R.w) IN /\ (R.dm + 3) * (R.dm + 3) >= s
                                                       /\ (R.dm < 4 \/ (R.dm - 3) * (R.dm - 3) <= s))
         \cup UNION {VelBad(R.vel[i]) : i \in 1 .. Len(R.vel)}
SameBad == UNION {Chk("C06.state." \o R.same[i].c, Abs(R.same[i].a - R.same[i].b) <= R.same[i].tol) : i \in 1 .. Len(R.same)}
NormBad == Chk("C28.unit", R.norm) \cup Chk("C28.nonmagnetic", R.nans)
Init == tid \in 1 .. Len(Traces) /\ row = 0 /\ bad = {}
Next == \/ /\ row < Len(T.rows)
           /\ row' = row + 1
           /\ UNCHANGED tid
           /\ bad' = bad \cup (StepBad \cup SameBad \cup NormBad)'
        \/ /\ row = Len(T.rows)
           /\ row' = row + 1
           /\ Report(tid, bad)
           /\ UNCHANGED <<tid, bad>>
Spec == Init /\ [][Next]_<<tid, row, bad>>
==============================================================================
