------------------------------ MODULE Symmetry -------------------------------
(***************************************************************************)
(* The changes of a simulation that change nothing to the physics, and how *)
(* the reported quantities follow: renumbering the nodes, reordering the   *)
(* elements, the regions and the nodes of an element, turning triangles    *)
(* over, moving and rotating the whole system, dividing a region.          *)
(*   g.perm   the new number of each node                                  *)
(*   g.R      rotation matrix (rows), with entries 0, 1, -1                *)
(*   g.s      shift                                                        *)
(***************************************************************************)
EXTENDS MeshModel

Rot(R, v) == <<Dot(R[1], v), Dot(R[2], v), Dot(R[3], v)>>
Mul(A, B) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]]
Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
DetR(R) == Dot(R[1], Cross(R[2], R[3]))
IsRotation(R) == DetR(R) = 1 /\ \A i, j \in 1 .. 3 : Dot(R[i], R[j]) = IF i = j THEN 1 ELSE 0
IsPerm(p, n) == Len(p) = n /\ Elems(p) = 1 .. n

Act(g, M) ==
    [M EXCEPT !.nodes = [j \in 1 .. Len(M.nodes) |-> LET i == CHOOSE i \in 1 .. Len(M.nodes) : g.perm[i] = j IN Add(Rot(g.R, M.nodes[i]), g.s)],
              !.tets = [t \in 1 .. Len(M.tets) |-> [r |-> M.tets[t].r, q |-> [k \in 1 .. 4 |-> g.perm[M.tets[t].q[k]]]]],
              !.tris = [t \in 1 .. Len(M.tris) |-> [r |-> M.tris[t].r, q |-> [k \in 1 .. 3 |-> g.perm[M.tris[t].q[k]]]]],
              !.vols = [i \in 1 .. Len(M.vols) |-> [M.vols[i] EXCEPT !.uk = Rot(g.R, @)]],
              !.surfs = [i \in 1 .. Len(M.surfs) |-> [M.surfs[i] EXCEPT !.uk = Rot(g.R, @)]],
              !.dsurf = [M.dsurf EXCEPT !.uk = Rot(g.R, @)]]
ActMag(g, u) == [j \in 1 .. Len(u) |-> LET i == CHOOSE i \in 1 .. Len(u) : g.perm[i] = j IN Rot(g.R, u[i])]

(* The same system: the lists have the same elements in any order, the      *)
(* nodes of an element come in any order; a region may be divided into      *)
(* several ones that have the same parameters (same[new name] = old name).  *)
Params(v) == [v EXCEPT !.n = ""]
SameSystem(A, B, same) ==
    LET name(x) == IF x \in DOMAIN same THEN same[x] ELSE x
        TetSet(M, f(_)) == {<<f(M.tets[t].r), Elems(M.tets[t].q)>> : t \in 1 .. Len(M.tets)}
        TriSet(M) == {<<M.tris[t].r, Elems(M.tris[t].q)>> : t \in 1 .. Len(M.tris)}
    IN  /\ A.nodes = B.nodes
        /\ Len(A.tets) = Len(B.tets) /\ Len(A.tris) = Len(B.tris)
        /\ TetSet(A, LAMBDA x : x) = TetSet(B, name)
        /\ TriSet(A) = TriSet(B)
        /\ Elems(A.surfs) = Elems(B.surfs)
        /\ \A i \in 1 .. Len(B.vols) : name(B.vols[i].n) \in VolNames(A) /\ Params(B.vols[i]) = Params(Vol(A, name(B.vols[i].n)))
        /\ \A i \in 1 .. Len(A.vols) : \E j \in 1 .. Len(B.vols) : name(B.vols[j].n) = A.vols[i].n
        /\ A.dsurf = B.dsurf
        /\ (DOMAIN same # {} => A.dsurf.ks = 0)
==============================================================================
