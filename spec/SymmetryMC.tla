----------------------------- MODULE SymmetryMC ------------------------------
(***************************************************************************)
(* The quantities of MeshModel under the transformations of Symmetry: from *)
(* small systems, all the sequences of generators.                         *)
(***************************************************************************)
EXTENDS Symmetry
VARIABLES M, u, B, R, base, n
CONSTANTS Depth

P0 == <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<1, 1, -3>>, <<4, 3, 2>>>>
V(nm, ms, ae, k, uk) == [n |-> nm, ms |-> ms, ae |-> ae, k |-> k, uk |-> uk, k3 |-> 0]
S(nm, ks, uk) == [n |-> nm, sup |-> FALSE, ks |-> ks, uk |-> uk]
D0 == S("", 0, <<0, 0, 5>>)
Base == {
  [nodes |-> P0, tets |-> <<[r |-> "A", q |-> <<1, 2, 3, 4>>], [r |-> "A", q |-> <<1, 2, 5, 3>>], [r |-> "B", q |-> <<4, 2, 3, 6>>]>>,
   tris |-> <<[r |-> "S", q |-> <<1, 2, 4>>]>>, vols |-> <<V("A", 2, 1, 1, <<3, 4, 0>>), V("B", 1, 2, -1, <<0, 0, 5>>)>>,
   surfs |-> <<S("S", 1, <<0, 5, 0>>)>>, dsurf |-> D0],
  [nodes |-> P0, tets |-> <<[r |-> "A", q |-> <<1, 2, 3, 4>>], [r |-> "B", q |-> <<1, 2, 5, 3>>], [r |-> "A", q |-> <<4, 2, 3, 6>>]>>,
   tris |-> <<[r |-> "S", q |-> <<1, 2, 3>>]>>, vols |-> <<V("A", 0, 1, 1, <<3, 4, 0>>), V("B", 3, 1, 2, <<0, 0, 5>>)>>,
   surfs |-> <<S("S", 0, <<5, 0, 0>>)>>, dsurf |-> D0]}
U0 == <<<<5, 0, 0>>, <<3, 4, 0>>, <<0, 0, 5>>, <<0, -3, 4>>, <<0, 5, 0>>, <<-4, 0, 3>>>>
Quantities(m, w, b) ==
    [vol |-> Volume6(m), tris |-> NbTris(m), legal |-> Legal(m), groups |-> Cardinality(Groups(m)), zee |-> ZeemanX(m, w, LAMBDA t : b),
     ani |-> AnisoX(m, w), ang |-> MinDotMag(m, w), dir |-> Sum(LAMBDA t : Vol(m, m.tets[t].r).ae * GradSq(m, w, t), MagTets(m)),
     div |-> {DivX(m, w, t) : t \in MagTets(m)},
     charge |-> {Abs(Jump(m, x.q) * Dot(Area2(m, x.q), w[x.q[1]]) + Jump(m, x.q) * Dot(Area2(m, x.q), w[x.q[2]]) + Jump(m, x.q) * Dot(Area2(m, x.q), w[x.q[3]])) : x \in AllTris(m)},
     demag |-> DemagX(m, w, [i \in 1 .. Len(w) |-> 1]), tol |-> DemagTol(m, w)]
Init == \E m \in Base : M = m /\ u = U0 /\ B = <<2, -1, 3>> /\ R = Id3 /\ base = [m |-> m, q |-> Quantities(m, U0, <<2, -1, 3>>), a |-> AvgNum(m, U0, "")] /\ n = 0
Do(g) == M' = Act(g, M) /\ u' = ActMag(g, u) /\ B' = Rot(g.R, B) /\ R' = Mul(g.R, R) /\ UNCHANGED base /\ n' = n + 1
Rz == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
Rx == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
IdP == [i \in 1 .. 6 |-> i]
Cycle == [i \in 1 .. 6 |-> (i % 6) + 1]
Turn == \E G \in {Rx, Rz} : Do([perm |-> IdP, R |-> G, s |-> Zero])
Renumber == Do([perm |-> Cycle, R |-> Id3, s |-> Zero])
Shift == M.nodes[1][1] < 9 /\ Do([perm |-> IdP, R |-> Id3, s |-> <<7, -2, 3>>])
Flip == M' = [M EXCEPT !.tris[1].q = <<@[2], @[1], @[3]>>] /\ UNCHANGED <<u, B, R, base>> /\ n' = n + 1
Reorder == M' = [M EXCEPT !.tets = <<@[2], @[3], @[1]>>, !.vols = <<@[2], @[1]>>, !.tets[1].q = <<@[2], @[1], @[3], @[4]>>] /\ UNCHANGED <<u, B, R, base>> /\ n' = n + 1
Next == n < Depth /\ (Turn \/ Renumber \/ Shift \/ Flip \/ Reorder)
Spec == Init /\ [][Next]_<<M, u, B, R, base, n>>
Rotation == IsRotation(R)
Invariant == Quantities(M, u, B) = base.q
Covariant == AvgNum(M, u, "") = Rot(R, base.a)
==============================================================================
