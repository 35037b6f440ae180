----------------------------- MODULE TransportMC -----------------------------
(***************************************************************************)
(* Laws that the equations of Transport obey for all the potentials and    *)
(* spin accumulations that a few changes of single nodes reach, on a small *)
(* conductor of two regions: nothing is created (Conserved), the work of   *)
(* the current is never negative (Positive), a constant potential drives   *)
(* nothing (Uniform), the exchange with the magnetization rotates the spin *)
(* accumulation without work (Precession) and the spin accumulation along  *)
(* the magnetization does not move it (Tangential).                        *)
(***************************************************************************)
EXTENDS Transport
CONSTANTS Depth
VARIABLES M, V, s, n
P0 == <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<0, 0, -2>>, <<2, 2, 0>>>>
Reg(nm, ms, sg, df, fi, gi, p) == [n |-> nm, ms |-> ms, sg |-> sg, df |-> df, fi |-> fi, gi |-> gi, p |-> p, ae |-> 0, k |-> 0, uk |-> <<0, 0, 5>>, k3 |-> 0]
Base == {[nodes |-> P0, tets |-> <<[r |-> "A", q |-> <<1, 2, 3, 4>>], [r |-> "A", q |-> <<1, 2, 5, 3>>], [r |-> "B", q |-> <<4, 2, 3, 6>>]>>,
          tris |-> <<>>, vols |-> <<Reg("A", 1, sg, 1, 0, 2, 3), Reg("B", ms, 2, 2, 0, 1, 1)>>, surfs |-> <<>>] : sg \in {1, 3}, ms \in {0, 1}}
u == <<<<50, 0, 0>>, <<0, 30, 40>>, <<0, 0, -50>>, <<-40, 0, 30>>, <<50, 0, 0>>, <<0, 50, 0>>>>
Lc == 8
Nod == 1 .. 6
Init == M \in Base /\ V = [i \in Nod |-> 0] /\ s = [i \in Nod |-> Zero] /\ n = 0
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED M
        /\ \E i \in Nod : \/ \E x \in {-3, 1, 250} : V' = [V EXCEPT ![i] = @ + x] /\ UNCHANGED s
                          \/ \E x \in {<<1, 0, 0>>, <<0, -2, 5>>, <<30, 40, 0>>} : s' = [s EXCEPT ![i] = Add(@, x)] /\ UNCHANGED V
Spec == Init /\ [][Next]_<<M, V, s, n>>
Out(f, i) == Outflow(M, Lc, f, i)
Conserved == /\ Sum(LAMBDA i : Out(V, i), Nod) = 0
             /\ SumVec(LAMBDA i : [c \in 1 .. 3 |-> Sum(LAMBDA t : Stiff(M, Lc, Comp(s, c), t, i), TetsHere(M, i))], Nod) = Zero
Positive == Sum(LAMBDA i : V[i] * Out(V, i), Nod) >= 0
Uniform == \A i \in Nod : Out([j \in Nod |-> V[j] + 7], i) = Out(V, i)
Symmetric == n = 0 => \A i, j \in Nod : Out([k \in Nod |-> IF k = i THEN 1 ELSE 0], j) = Out([k \in Nod |-> IF k = j THEN 1 ELSE 0], i)
Still(i) == \A j \in Nod : s[j] = s[i]
Precession == \A i \in Nod : Still(i) => Abs(Dot(SpinLeft(M, Lc, u, s, i), s[i])) <= 3 * 8 * 2 * 48 * Norm1(s[i])
Along == [i \in Nod |-> [c \in 1 .. 3 |-> u[1][c] \div 10]]
Tangential == n = 0 => \A i \in MagNodes(M) : LET f == ForceSpin(M, Along, i) IN Tangent(f, [c \in 1 .. 3 |-> u[1][c] \div 10]) = Zero
==============================================================================
