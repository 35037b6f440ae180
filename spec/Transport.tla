------------------------------ MODULE Transport ------------------------------
(***************************************************************************)
(* Electric transport and spin diffusion in a meshed conductor.            *)
(*                                                                         *)
(*  - the current is conserved: at each node that is not held at a given   *)
(*    potential, what flows out through the tetrahedra is what is injected *)
(*    by the surface of given normal current;                              *)
(*  - the spin accumulation s obeys, at each node where it is not given,   *)
(*      - div(D grad s) + D/lsf^2 s + D/lsd^2 s x m = div(P sigma grad V m)*)
(*    (weak form, lumped; the last two only where there is magnetization); *)
(*  - it acts on the magnetization as a field D s / (lsd^2 gamma0 Ms).     *)
(*                                                                         *)
(* Units: length L, current density j0, conductivity s0, potential         *)
(* j0 L / s0, spin accumulation j0 muB / e, diffusion D1.  The volume      *)
(* regions have sg (conductivity), df (diffusion), fi = (L / lsf)^2,       *)
(* gi = (L / lsd)^2, p = 4 P.  The surface regions have jn and v           *)
(* (NoVal if not given).  V and s are given in 250th, the magnetization u  *)
(* in 50th.                                                                *)
(***************************************************************************)
EXTENDS Llg
NoVal == 1000000
KK == 250
TetsHere(M, i) == {t \in TetIx(M) : i \in Elems(M.tets[t].q)}
TrisHere(M, i) == {x \in TriIx(M) : i \in Elems(M.tris[x].q)}
NodesOf(M) == UNION {Elems(M.tets[t].q) : t \in TetIx(M)}
Given(M, what(_)) == UNION {Elems(M.tris[x].q) : x \in {y \in TriIx(M) : what(Surf(M, M.tris[y].r))}}
Held(M) == Given(M, LAMBDA s : s.v # NoVal)
HeldSpin(M) == Given(M, LAMBDA s : (s.jn # NoVal) # (s.sv # <<>>))
Norm1(a) == Abs(a[1]) + Abs(a[2]) + Abs(a[3])            \* the norm of a vector along an axis

(* Lc is a multiple of all the V6; T(t) a scalar field on the nodes         *)
Stiff(M, Lc, f, t, i) ==
    LET q == M.tets[t].q
        k == PosIn(q, i)
    IN  (Lc \div V6(M, t)) * Sum(LAMBDA j : Dot(Grad(M, t, k), Grad(M, t, j)) * f[q[j]], 1 .. 4)
Outflow(M, Lc, V, i) == Sum(LAMBDA t : Vol(M, M.tets[t].r).sg * Stiff(M, Lc, V, t, i), TetsHere(M, i))
Injected(M, Lc, i) ==
    -(KK * Lc) * Sum(LAMBDA x : LET s == Surf(M, M.tris[x].r) IN IF s.jn = NoVal THEN 0 ELSE s.jn * Norm1(Area2(M, M.tris[x].q)), TrisHere(M, i))
FlowTol(M, Lc, i) ==
    Sum(LAMBDA t : LET q == M.tets[t].q k == PosIn(q, i)
                   IN  Vol(M, M.tets[t].r).sg * (Lc \div V6(M, t)) * Sum(LAMBDA j : Abs(Dot(Grad(M, t, k), Grad(M, t, j))), 1 .. 4), TetsHere(M, i))

IsMag(M, t) == Vol(M, M.tets[t].r).ms > 0
Comp(s, c) == [i \in DOMAIN s |-> s[i][c]]
(* s x u / 50 of vectors of the node *)
SpinLeft(M, Lc, u, s, i) ==
    SumVec(LAMBDA t : LET v == Vol(M, M.tets[t].r)
                          st == [c \in 1 .. 3 |-> 4 * v.df * Stiff(M, Lc, Comp(s, c), t, i)]
                          fl == Scale(Lc * v.df * v.fi * V6(M, t), s[i])
                          x == IF IsMag(M, t) THEN LET y == Cross(s[i], u[i]) IN
                                   [c \in 1 .. 3 |-> Lc * v.df * v.gi * V6(M, t) * (y[c] \div 50)] ELSE Zero
                      IN  Add(Add(st, fl), x), TetsHere(M, i))
SpinRight(M, Lc, u, V, i) ==
    SumVec(LAMBDA t : LET v == Vol(M, M.tets[t].r)
                          f == IF IsMag(M, t) THEN v.p * v.sg * Stiff(M, Lc, V, t, i) ELSE 0
                      IN  [c \in 1 .. 3 |-> ((f \div 10) * u[i][c]) \div 5], TetsHere(M, i))
SpinTol(M, Lc, V, s, i) ==
    LET big == Norm1(s[i])
    IN  Sum(LAMBDA t : LET v == Vol(M, M.tets[t].r)
                           q == M.tets[t].q k == PosIn(q, i)
                           g == (Lc \div V6(M, t)) * Sum(LAMBDA j : Abs(Dot(Grad(M, t, k), Grad(M, t, j))), 1 .. 4)
                           m == IF IsMag(M, t) THEN 1 ELSE 0
                       IN  4 * v.df * g + Lc * v.df * v.fi * V6(M, t) + m * (Lc * v.df * v.gi * V6(M, t) * (3 + big \div 40)
                           + 3 * v.p * v.sg * g + (v.p * v.sg * Abs(Stiff(M, Lc, V, t, i))) \div 40) + 12, TetsHere(M, i))

(* force on the magnetization, as in Llg *)
ForceSpin(M, s, i) ==
    SumVec(LAMBDA t : LET v == Vol(M, M.tets[t].r) q == M.tets[t].q
                          f == Scale(V6(M, t) * v.df * v.gi, Add(s[i], SumVec(LAMBDA j : s[q[j]], 1 .. 4)))
                      IN  [c \in 1 .. 3 |-> f[c] \div v.ms], TetsAt(M, i))

------------------------------------------------------------------------------
(* The boundary conditions: one surface of given current, one of given      *)
(* potential, one of given spin accumulation.                               *)
Count(M, what(_)) == Cardinality({i \in 1 .. Len(M.surfs) : what(M.surfs[i])})
Conditions(M) == /\ Count(M, LAMBDA s : s.jn # NoVal) = 1
                 /\ Count(M, LAMBDA s : s.v # NoVal) = 1
                 /\ Count(M, LAMBDA s : s.sv # <<>>) = 1
                 /\ \A i \in 1 .. Len(M.vols) : M.vols[i].df # 0 /\ M.vols[i].p \in 0 .. 3
==============================================================================
