-------------------------------- MODULE LlgMC --------------------------------
(***************************************************************************)
(* The forces of Llg are minus the derivatives of the energies of          *)
(* MeshModel, for all the states of small systems that a few changes of    *)
(* the magnetization of single nodes reach.  Quadratic energies:           *)
(* E(u + d) - E(u - d) = 2 d . grad E exactly.                             *)
(***************************************************************************)
EXTENDS Llg
CONSTANTS Depth
VARIABLES M, u, n
P0 == <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<0, 0, -2>>, <<2, 2, 0>>>>
V(nm, ae, k, uk, k3) == [n |-> nm, ms |-> 1, ae |-> ae, k |-> k, uk |-> uk, k3 |-> k3]
S(nm, ks, uk) == [n |-> nm, sup |-> FALSE, ks |-> ks, uk |-> uk]
Base == {[nodes |-> P0, tets |-> <<[r |-> "A", q |-> <<1, 2, 3, 4>>], [r |-> "A", q |-> <<1, 2, 5, 3>>], [r |-> "B", q |-> <<4, 2, 3, 6>>]>>,
          tris |-> <<[r |-> "S", q |-> <<1, 2, 4>>], [r |-> "S", q |-> <<4, 1, 3>>]>>, vols |-> <<V("A", 1, k, <<3, 4, 0>>, 0), V("B", 2, -1, <<0, 0, 5>>, 0)>>,
          surfs |-> <<S("S", ks, <<0, 3, 4>>)>>, dsurf |-> S("", 0, <<0, 0, 5>>)] : k \in {0, 1}, ks \in {0, -2}}
b == <<2, -1, 3>>
Palette == {<<5, 0, 0>>, <<0, 3, 4>>, <<0, 0, -5>>, <<-4, 0, 3>>}
D == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>}
Init == M \in Base /\ u = [i \in 1 .. 6 |-> <<5, 0, 0>>] /\ n = 0
Next == n < Depth /\ \E i \in 1 .. 6, v \in Palette : u[i] # v /\ u' = [u EXCEPT ![i] = v] /\ n' = n + 1 /\ UNCHANGED M
Spec == Init /\ [][Next]_<<M, u, n>>
Plus(i, d) == [u EXCEPT ![i] = Add(@, d)]
Minus(i, d) == [u EXCEPT ![i] = Sub(@, d)]
(* In units of mu0 Ms h0 L^3, the energies are ExchangeX / (300 * 8),        *)
(* - AnisoX / 150000, - ZeemanX / 120; the steps d are fifths.               *)
GradExchange == \A i \in 1 .. 6, d \in D : 4 * Dot(ForceExchange(M, u, i), d) = -125 * (ExchangeX(M, Plus(i, d), 8) - ExchangeX(M, Minus(i, d), 8))
GradAniso == \A i \in 1 .. 6, d \in D : 2 * Dot(Add(ForceUniaxial(M, u, i), ForceSurface(M, u, i)), d) = AnisoX(M, Plus(i, d)) - AnisoX(M, Minus(i, d))
GradZeeman == \A i \in 1 .. 6, d \in D : 2 * Dot(ForceZeeman(M, i, b), d) = 1250 * (ZeemanX(M, Plus(i, d), LAMBDA t : b) - ZeemanX(M, Minus(i, d), LAMBDA t : b))
TangentInv == \A i \in 1 .. 6 : LET f == Force(M, u, [j \in 1 .. 6 |-> j], b, i) IN Abs(Dot(Tangent(f, u[i]), u[i])) <= 30
(* A uniform state feels no exchange; forces of exchange sum up to zero.     *)
ExchangeSum == SumVec(LAMBDA i : ForceExchange(M, u, i), 1 .. 6) = Zero
==============================================================================
