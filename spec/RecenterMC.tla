----------------------------- MODULE RecenterMC ------------------------------
(***************************************************************************)
(* A wire of Depth cells with one wall anywhere in it, that jumps by any   *)
(* amount at each step.  A translation invents no magnetization, keeps the *)
(* wall, and brings it to within half a cell of the middle; it does        *)
(* nothing below the threshold.                                            *)
(***************************************************************************)
EXTENDS Recenter
CONSTANTS Depth, Thr
VARIABLES w, s, phase, u
N1 == Depth + 1
Pt(k, c) == CASE c = 0 -> <<0, 0, k>> [] c = 1 -> <<1, 0, k>> [] c = 2 -> <<0, 1, k>>
Ix(k, c) == 3 * k + c + 1
(* prisms cut in three tetrahedra *)
Prism(k) == <<[r |-> "W", q |-> <<Ix(k, 0), Ix(k, 1), Ix(k, 2), Ix(k + 1, 2)>>], [r |-> "W", q |-> <<Ix(k, 0), Ix(k, 1), Ix(k + 1, 2), Ix(k + 1, 1)>>],
               [r |-> "W", q |-> <<Ix(k, 0), Ix(k + 1, 1), Ix(k + 1, 2), Ix(k + 1, 0)>>]>>
M == [nodes |-> [i \in 1 .. 3 * N1 |-> Pt((i - 1) \div 3, (i - 1) % 3)],
      tets |-> [t \in 1 .. 3 * Depth |-> Prism((t - 1) \div 3)[((t - 1) % 3) + 1]], tris |-> <<>>,
      vols |-> <<[n |-> "W", ms |-> 1]>>, surfs |-> <<>>]
Slice(i) == (i - 1) \div 3
(* the wall is at slice w (transverse there) *)
State(w_, s_) == [i \in 1 .. 3 * N1 |-> IF Slice(i) < w_ THEN <<0, 0, 5 * s_>> ELSE IF Slice(i) > w_ THEN <<0, 0, -5 * s_>> ELSE <<5, 0, 0>>]
Init == w \in 1 .. Depth - 1 /\ s \in {1, -1} /\ phase = "moved" /\ u = State(w, s)
Move == phase = "kept" /\ w' \in 1 .. Depth - 1 /\ u' = State(w', s) /\ phase' = "moved" /\ UNCHANGED s
Shifted == LET R == Trip(M, u, 3, 5 * s) IN [i \in DOMAIN u |-> u[CHOOSE j \in Sources(M, R, 3, i) : TRUE]]
Keep == phase = "moved" /\ phase' = "kept" /\ u' = (IF Over(M, u, 3, Thr) THEN Shifted ELSE u) /\ UNCHANGED <<w, s>>
Next == Move \/ Keep
Spec == Init /\ [][Next]_<<w, s, phase, u>>
Copies == \A i \in DOMAIN u : u[i] \in {<<0, 0, 5>>, <<0, 0, -5>>, <<5, 0, 0>>}
Ends == ~NoWall(M, u, 3) /\ EndSigns(M, u, 3, 0) = {s}
Centred == phase = "kept" => (1000 * Abs(Num(M, u, 3)) <= Thr * Den(M) \/ Depth * Abs(Num(M, u, 3)) <= 2 * Den(M))
Volume == RegVolume6(M, "") = 3 * Depth
==============================================================================
