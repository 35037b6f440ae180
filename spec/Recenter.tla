------------------------------ MODULE Recenter -------------------------------
(***************************************************************************)
(* Keeping a domain wall in the middle of a wire: after a time step, if    *)
(* the average of the magnetization along the wire reaches the threshold,  *)
(* the magnetization is translated along it by half the length times that  *)
(* average, towards the middle: each magnetic node takes the magnetization *)
(* of the magnetic node nearest to the place the translation comes from,   *)
(* and those that it leaves, that of the end of the wire.  Without a wall  *)
(* (the two ends have the same sign) the run fails.                        *)
(*                                                                         *)
(* The magnetic nodes form a grid along the wire.  u in 5th, thr in 1000th *)
(***************************************************************************)
EXTENDS MeshModel
Coord(M, a) == {M.nodes[i][a] : i \in 1 .. Len(M.nodes)}
Lo(M, a) == CHOOSE x \in Coord(M, a) : \A y \in Coord(M, a) : x <= y
Hi(M, a) == CHOOSE x \in Coord(M, a) : \A y \in Coord(M, a) : x >= y
(* the magnetic nodes nearest to the middle of an end *)
Twice(M, a, x) == [c \in 1 .. 3 |-> IF c = a THEN 2 * x ELSE Lo(M, c) + Hi(M, c)]
Dist2(p, q) == Dot(Sub(p, q), Sub(p, q))
EndNodes(M, a, x) ==
    LET mag == MagNodes(M)
        q == Twice(M, a, x)
        d == [i \in mag |-> Dist2(Scale(2, M.nodes[i]), q)]
        m == CHOOSE y \in {d[i] : i \in mag} : \A i \in mag : y <= d[i]
    IN  {i \in mag : d[i] = m}
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
EndSigns(M, u, a, x) == {Sign(u[i][a]) : i \in EndNodes(M, a, x)}
(* when several nodes are as near to the middle of an end, any of them tells *)
Wall(M, u, a) == \E x \in EndSigns(M, u, a, Lo(M, a)), y \in EndSigns(M, u, a, Hi(M, a)) : x * y <= 0
NoWall(M, u, a) == \E x \in EndSigns(M, u, a, Lo(M, a)), y \in EndSigns(M, u, a, Hi(M, a)) : x * y >= 0

Num(M, u, a) == AvgNum(M, u, "")[a]
Den(M) == 20 * RegVolume6(M, "")
Excess(M, u, a, thr) == 1000 * Abs(Num(M, u, a)) - thr * Den(M)
Over(M, u, a, thr) == Excess(M, u, a, thr) >= -(Den(M) \div 10)      \* may translate (a tenth of a thousandth of slack)
Under(M, u, a, thr) == Excess(M, u, a, thr) <= Den(M) \div 10        \* may stay

(* what the translation needs to know; places along the wire are multiplied by 10 Den *)
(* The length of the translation is multiplied by the component at the end (in 5th), which is +5 or -5 in a plain end. *)
EndValues(M, u, a, x) == LET V == {u[i][a] : i \in EndNodes(M, a, x)} IN V \cup {5 * Sign(v) : v \in V}
Trip(M, u, a, v) == LET lo == Lo(M, a) hi == Hi(M, a) IN
    [shift |-> Num(M, u, a) * (hi - lo) * v, k |-> 10 * Den(M), lo |-> lo, hi |-> hi,
     el |-> EndNodes(M, a, lo), eh |-> EndNodes(M, a, hi), mag |-> MagNodes(M)]
SameLine(M, a, i, j) == \A c \in 1 .. 3 : c # a => M.nodes[i][c] = M.nodes[j][c]
Sources(M, R, a, i) ==
    LET p == R.k * M.nodes[i][a] + R.shift
        e == R.k \div 1000
        far == IF p > R.k * R.hi - e THEN R.eh ELSE IF p < R.k * R.lo + e THEN R.el ELSE {}
        L == {j \in R.mag : SameLine(M, a, i, j)}
        D == [j \in L |-> Abs(R.k * M.nodes[j][a] - p)]
        m == CHOOSE y \in {D[j] : j \in L} : \A j \in L : y <= D[j]
    IN  IF p > R.k * R.hi + e \/ p < R.k * R.lo - e THEN far ELSE far \cup {j \in L : D[j] <= m + e}
==============================================================================
