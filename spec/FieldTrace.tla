------------------------------ MODULE FieldTrace -----------------------------
(***************************************************************************)
(* The applied field in the dynamics.  Traces are pairs of runs:           *)
(*  same    the same field written in two ways: all the rows and saved     *)
(*          magnetizations have to be the same;                            *)
(*  blocks  separate bodies, too weak to act on each other, each one in a  *)
(*          part of space where the field is uniform: every body has to    *)
(*          move as it does alone in the field found at its place.         *)
(* A run is a sequence of snapshots; a snapshot is a sequence of vectors   *)
(* (millionths).  place[b] are the nodes of body b in the common mesh, in  *)
(* the order of the mesh of the body alone; cell[b] is its place in space. *)
(***************************************************************************)
EXTENDS Integers, Sequences, Verdict
VARIABLES tid, k, bad
T == Traces[tid]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == \A c \in 1 .. Len(a) : Abs(a[c] - b[c]) <= T.tol
SameSnap(x, y) == Len(x) = Len(y) /\ \A i \in 1 .. Len(x) : Near(x[i], y[i])
Mod(a, n) == ((a % n) + n) % n
(* which vector of the palette the space function gives in a cell *)
Which(c) == 1 + Mod(T.a[1] * c[1] + T.a[2] * c[2] + T.a[3] * c[3], Len(T.pal))
BlockBad(b) ==
    Chk("C17.setup", T.alone[b].field = T.pal[Which(T.cell[b])])
    \cup Chk("C17.motion", \A i \in 1 .. Len(T.place[b]) : Near(T.all[k][T.place[b][i]], T.alone[b].run[k][i]))
Bad == IF T.kind = "same" THEN Chk("C17.representation", SameSnap(T.all[k], T.other[k]))
       ELSE UNION {BlockBad(b) : b \in 1 .. Len(T.place)}
N == IF T.kind = "same" THEN Len(T.all) ELSE Len(T.all)
Init == tid \in 1 .. Len(Traces) /\ k = 0
        /\ bad = Chk("C17.length", IF T.kind = "same" THEN Len(T.all) = Len(T.other) /\ Len(T.all) > 0
                                   ELSE Len(T.all) > 0 /\ \A b \in 1 .. Len(T.alone) : Len(T.alone[b].run) = Len(T.all))
Next == \/ /\ bad = {} /\ k < N
           /\ k' = k + 1 /\ UNCHANGED tid
           /\ bad' = Bad'
        \/ /\ (bad # {} \/ k = N) /\ k <= N
           /\ k' = N + 1 /\ UNCHANGED <<tid, bad>>
           /\ Report(tid, bad)
Spec == Init /\ [][Next]_<<tid, k, bad>>
==============================================================================
