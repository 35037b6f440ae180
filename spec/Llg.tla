--------------------------------- MODULE Llg ---------------------------------
(***************************************************************************)
(* The motion of the magnetization: at each magnetic node,                 *)
(*      alpha v + m x v = gamma0 * (part of F orthogonal to m) / V         *)
(* where F is minus the derivative of the energy with respect to the       *)
(* magnetization of the node, over mu0 Ms, and V the volume of the node (a *)
(* quarter of its tetrahedra).  One saturation magnetization.              *)
(*                                                                         *)
(* Units: lengths L, fields h0.  Coefficients of the regions are in units  *)
(* that make the fields h0 times small integers: induction mu0 h0,         *)
(* exchange mu0 Ms h0 L^2 / 2, anisotropies mu0 Ms h0 / 2, surface         *)
(* anisotropy mu0 Ms h0 L / 2.  Forces are multiplied by 30000.            *)
(***************************************************************************)
EXTENDS MeshModel

TetsAt(M, i) == {t \in MagTets(M) : i \in Elems(M.tets[t].q)}
TrisAt(M, i) == {x \in MagTris(M) : i \in Elems(x.q)}
PosIn(q, i) == CHOOSE k \in 1 .. Len(q) : q[k] = i
NodeV6(M, i) == Sum(LAMBDA t : V6(M, t), TetsAt(M, i))      \* 24 times the volume of the node

ForceZeeman(M, i, b) == Scale(1250 * NodeV6(M, i), b)
ForceUniaxial(M, u, i) ==
    SumVec(LAMBDA t : LET v == Vol(M, M.tets[t].r) IN Scale(2 * v.k * V6(M, t) * Dot(Add(u[i], USum(M, u, t)), v.uk), v.uk), TetsAt(M, i))
Cub(a) == [c \in 1 .. 3 |-> a[c] * (25 - a[c] * a[c])]
ForceCubic(M, u, i) == SumVec(LAMBDA t : Scale(-10 * Vol(M, M.tets[t].r).k3 * V6(M, t), Cub(u[i])), TetsAt(M, i))
ForceExchange(M, u, i) ==
    SumVec(LAMBDA t : LET q == M.tets[t].q
                          k == PosIn(q, i)
                      IN  Scale(-Vol(M, M.tets[t].r).ae * (1000 \div V6(M, t)),
                                SumVec(LAMBDA j : Scale(Dot(Grad(M, t, k), Grad(M, t, j)), u[q[j]]), 1 .. 4)), TetsAt(M, i))
ForceSurface(M, u, i) ==
    SumVec(LAMBDA x : LET a == Area2(M, x.q)
                          s == SumVec(LAMBDA k : u[x.q[k]], 1 .. 3)
                      IN  Scale(10 * x.s.ks * (Abs(a[1]) + Abs(a[2]) + Abs(a[3])) * Dot(Add(u[i], s), x.s.uk), x.s.uk), TrisAt(M, i))
(* potential p in units of h0 L / 1000 *)
ForceDemag(M, p, i) ==
    LET s == SumVec(LAMBDA t : SumVec(LAMBDA j : Scale(p[M.tets[t].q[j]], Grad(M, t, j)), 1 .. 4), TetsAt(M, i))
    IN  [c \in 1 .. 3 |-> -((5 * s[c]) \div 4)]
Force(M, u, p, b, i) ==
    Add(Add(Add(ForceZeeman(M, i, b), ForceUniaxial(M, u, i)), Add(ForceCubic(M, u, i), ForceExchange(M, u, i))),
        Add(ForceSurface(M, u, i), ForceDemag(M, p, i)))
Tangent(f, m) == LET d == Dot(f, m) IN [c \in 1 .. 3 |-> f[c] - ((d \div 25) * m[c] + ((d % 25) * m[c]) \div 25)]

(* The motion w during a small time q / (gamma0 h0), given as w / q * 1000; *)
(* alpha10(t): ten times the damping in the tetrahedron t.                  *)
Alpha10(M, a, i) == Sum(LAMBDA t : a[t] * V6(M, t), TetsAt(M, i))
MotionLeft(M, u, a, w, i) == Add(Scale(Alpha10(M, a, i), w), Scale(2 * NodeV6(M, i), Cross(u[i], w)))
MotionRight(M, u, f, i) == Scale(8, Tangent(f, u[i]))
==============================================================================
