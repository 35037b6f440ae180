------------------------------ MODULE MeshModel ------------------------------
(***************************************************************************)
(* The mesh as the program has to understand it, with integer coordinates: *)
(* which meshes are accepted, how the surfaces are completed, the volumes, *)
(* the magnetic nodes, and the quantities of the .evol file as exact sums. *)
(*                                                                         *)
(*   M.nodes   sequence of points <<x, y, z>>                              *)
(*   M.tets    sequence of [r : physical name, q : 4 node numbers]         *)
(*   M.tris    sequence of [r : physical name, q : 3 node numbers]         *)
(*   M.vols    volume regions of the settings [n, ms, ae, k, uk, k3]       *)
(*   M.surfs   surface regions of the settings [n, sup, ks, uk]            *)
(*   M.dsurf   the default surface region                                  *)
(* The magnetization is given in fifths: u[i] = 5 * magnetization of i.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Scale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Zero == <<0, 0, 0>>
Elems(s) == {s[i] : i \in 1 .. Len(s)}
Sum(f(_), S) == MapThenSumSet(f, S)
SumVec(f(_), S) == <<Sum(LAMBDA i : f(i)[1], S), Sum(LAMBDA i : f(i)[2], S), Sum(LAMBDA i : f(i)[3], S)>>

------------------------------------------------------------------------------
(* Regions: elements of groups that the settings do not name are ignored.   *)
VolNames(M) == {M.vols[i].n : i \in 1 .. Len(M.vols)}
SurfNames(M) == {M.surfs[i].n : i \in 1 .. Len(M.surfs)}
Vol(M, r) == M.vols[CHOOSE i \in 1 .. Len(M.vols) : M.vols[i].n = r]
Surf(M, r) == M.surfs[CHOOSE i \in 1 .. Len(M.surfs) : M.surfs[i].n = r]
TetIx(M) == {i \in 1 .. Len(M.tets) : M.tets[i].r \in VolNames(M)}
TriIx(M) == {i \in 1 .. Len(M.tris) : M.tris[i].r \in SurfNames(M)}
Known(M) == /\ \A i \in 1 .. Len(M.vols) : \E j \in 1 .. Len(M.tets) : M.tets[j].r = M.vols[i].n
            /\ \A i \in 1 .. Len(M.surfs) : \E j \in 1 .. Len(M.tris) : M.tris[j].r = M.surfs[i].n

Det6(M, q) == Dot(Sub(M.nodes[q[2]], M.nodes[q[1]]),
                  Cross(Sub(M.nodes[q[3]], M.nodes[q[1]]), Sub(M.nodes[q[4]], M.nodes[q[1]])))
V6(M, t) == Abs(Det6(M, M.tets[t].q))          \* six times the volume
Area2(M, q) == Cross(Sub(M.nodes[q[2]], M.nodes[q[1]]), Sub(M.nodes[q[3]], M.nodes[q[1]]))

(* Faces are sets of three nodes. *)
FacesOf(q) == {{q[2], q[3], q[4]}, {q[1], q[3], q[4]}, {q[1], q[2], q[4]}, {q[1], q[2], q[3]}}
TetFaces(M) == UNION {FacesOf(M.tets[t].q) : t \in TetIx(M)}
TriFaces(M) == {Elems(M.tris[t].q) : t \in TriIx(M)}
Owners(M, f) == {t \in TetIx(M) : f \subseteq Elems(M.tets[t].q)}
Covers(M, f) == {t \in TriIx(M) : Elems(M.tris[t].q) = f}
OneRegion(M, f) == \A s, t \in Owners(M, f) : M.tets[s].r = M.tets[t].r

LegalFace(M, f) ==
    LET no == Cardinality(Owners(M, f))
        nc == Cardinality(Covers(M, f))
    IN  /\ no \in {1, 2}
        /\ nc <= 1
        /\ (no = 2 /\ OneRegion(M, f)) => nc = 0
Legal(M) == /\ Known(M)
            /\ TetIx(M) # {}
            /\ \A t \in TetIx(M) : V6(M, t) # 0
            /\ \A f \in TetFaces(M) \cup TriFaces(M) : LegalFace(M, f)

(* What has to be added so that all boundaries and interfaces are covered.  *)
IsBoundary(M, f) == Cardinality(Owners(M, f)) = 1 \/ ~OneRegion(M, f)
Missing(M) == {f \in TetFaces(M) : Covers(M, f) = {} /\ IsBoundary(M, f)}
OwnersRegions(M, f) == {M.tets[t].r : t \in Owners(M, f)}
Groups(M) == {OwnersRegions(M, f) : f \in Missing(M)}
NbTris(M) == Cardinality(TriIx(M)) + Cardinality(Missing(M))
NamesFor(M, g, s) ==  \* possible names of the region made for the faces between the regions of g
    LET base == IF Cardinality(g) = 1 THEN {"surface(" \o r \o ")" : r \in g}
                ELSE {"interface(" \o a \o ", " \o b \o ")" : a, b \in g}
    IN  {b \o s : b \in base}

(* The jump of magnetization across a triangle, from the side of its normal *)
(* to the other one: signs follow its own orientation.                      *)
Apex(M, t, f) == CHOOSE i \in Elems(M.tets[t].q) : i \notin f
Jump(M, q) ==
    LET f == Elems(q)
        Side(t) == Sgn(Dot(Area2(M, q), Sub(M.nodes[q[1]], M.nodes[Apex(M, t, f)])))
    IN  Sum(LAMBDA t : Vol(M, M.tets[t].r).ms * Side(t), Owners(M, f))
Oriented(f) == LET a == CHOOSE i \in f : \A j \in f : i <= j
                   c == CHOOSE i \in f : \A j \in f : i >= j
               IN  <<a, CHOOSE i \in f : i # a /\ i # c, c>>
Folded(M) == \E f \in TetFaces(M) : \E s, t \in Owners(M, f) :  \* overlapping elements
                s # t /\ LET q == Oriented(f) IN Sgn(Dot(Area2(M, q), Sub(M.nodes[q[1]], M.nodes[Apex(M, s, f)])))
                                             = Sgn(Dot(Area2(M, q), Sub(M.nodes[q[1]], M.nodes[Apex(M, t, f)])))
(* all the triangles, given or added: [q, s] with s the surface parameters  *)
AllTris(M) == {[q |-> M.tris[t].q, s |-> Surf(M, M.tris[t].r)] : t \in TriIx(M)}
              \cup {[q |-> Oriented(f), s |-> M.dsurf] : f \in Missing(M)}
TotalCharge(M) == SumVec(LAMBDA x : Scale(Jump(M, x.q), Area2(M, x.q)), AllTris(M))   \* of a uniform magnetization
Complete(M) == [M EXCEPT !.tris = @ \o SetToSeq({[r |-> "added", q |-> Oriented(f)] : f \in Missing(M)}),
                         !.surfs = @ \o (IF Missing(M) = {} THEN <<>> ELSE <<[M.dsurf EXCEPT !.n = "added"]>>)]

------------------------------------------------------------------------------
(* Magnetic part.                                                           *)
MagTets(M) == {t \in TetIx(M) : Vol(M, M.tets[t].r).ms > 0}
MagNodes(M) == UNION {Elems(M.tets[t].q) : t \in MagTets(M)}
MagTris(M) == {x \in AllTris(M) : Elems(x.q) \subseteq MagNodes(M) /\ ~x.s.sup}
RegionsAt(M, i) == {M.tets[t].r : t \in {s \in TetIx(M) : i \in Elems(M.tets[s].q)}}
Volume6(M) == Sum(LAMBDA t : V6(M, t), TetIx(M))
TetsOf(M, r) == {t \in MagTets(M) : r = "" \/ M.tets[t].r = r}
RegVolume6(M, r) == Sum(LAMBDA t : V6(M, t), TetsOf(M, r))
Extent(M, k) == LET S == {M.nodes[i][k] : i \in 1 .. Len(M.nodes)}
                IN  (CHOOSE x \in S : \A y \in S : x >= y) - (CHOOSE x \in S : \A y \in S : x <= y)

USum(M, u, t) == LET q == M.tets[t].q IN Add(Add(u[q[1]], u[q[2]]), Add(u[q[3]], u[q[4]]))
(* 20 * Volume6 * average *)
AvgNum(M, u, r) == SumVec(LAMBDA t : Scale(V6(M, t), USum(M, u, t)), TetsOf(M, r))
(* minus 120 times the Zeeman energy in the induction B *)
ZeemanX(M, u, B(_)) == Sum(LAMBDA t : Vol(M, M.tets[t].r).ms * V6(M, t) * Dot(USum(M, u, t), B(t)), MagTets(M))

(* Gradients: six volumes times the gradient of the hat function of node k. *)
Grad(M, t, k) ==
    LET q == M.tets[t].q
        others == [j \in 1 .. 3 |-> q[IF j < k THEN j ELSE j + 1]]
        a == M.nodes[others[1]]
        n == Cross(Sub(M.nodes[others[2]], a), Sub(M.nodes[others[3]], a))
    IN  Scale(Sgn(Dot(n, Sub(M.nodes[q[k]], a))), n)
DerivSq(M, u, t, d) ==  \* |5 * V6 * du/dx_d|^2
    LET g == SumVec(LAMBDA k : Scale(Grad(M, t, k)[d], u[M.tets[t].q[k]]), 1 .. 4) IN Dot(g, g)
(* 150 * L * exchange energy, L being a multiple of all the V6 *)
GradSq(M, u, t) == DerivSq(M, u, t, 1) + DerivSq(M, u, t, 2) + DerivSq(M, u, t, 3)
ExchangeX(M, u, L) == Sum(LAMBDA t : Vol(M, M.tets[t].r).ae * GradSq(M, u, t) * (L \div V6(M, t)), MagTets(M))
ThieleX(M, u, r, L) == Sum(LAMBDA t : DerivSq(M, u, t, 3) * (L \div V6(M, t)), TetsOf(M, r))
Multiple(M, L) == \A t \in TetIx(M) : V6(M, t) # 0 /\ L % V6(M, t) = 0
(* 240 * demagnetizing energy / (mu0 Ms0^2 L^3), from the potential at the nodes *)
DivX(M, u, t) == Sum(LAMBDA k : Dot(Grad(M, t, k), u[M.tets[t].q[k]]), 1 .. 4)
FluxPhi(u, p, q, a) == LET b == [k \in 1 .. 3 |-> Dot(u[q[k]], a)] IN
    b[1] * p[q[1]] + b[2] * p[q[2]] + b[3] * p[q[3]] + (b[1] + b[2] + b[3]) * (p[q[1]] + p[q[2]] + p[q[3]])
DemagX(M, u, p) ==
    Sum(LAMBDA x : Jump(M, x.q) * FluxPhi(u, p, x.q, Area2(M, x.q)), MagTris(M))
    - Sum(LAMBDA t : LET q == M.tets[t].q IN Vol(M, M.tets[t].r).ms * DivX(M, u, t) * (p[q[1]] + p[q[2]] + p[q[3]] + p[q[4]]), MagTets(M))
(* how much DemagX may change when each potential changes by at most one half *)
DemagTol(M, u) ==
    Sum(LAMBDA x : LET a == Area2(M, x.q) IN Abs(Jump(M, x.q)) * 2 * (Abs(Dot(u[x.q[1]], a)) + Abs(Dot(u[x.q[2]], a)) + Abs(Dot(u[x.q[3]], a))), MagTris(M))
    + 2 * Sum(LAMBDA t : Vol(M, M.tets[t].r).ms * Abs(DivX(M, u, t)), MagTets(M))

Quad(S) == LET s == Sum(LAMBDA x : x[2], S) IN Sum(LAMBDA x : x[2] * x[2], S) + s * s
QuadOf(u, q, uk, n) == Quad({<<k, Dot(u[q[k]], uk)>> : k \in 1 .. n})
UniformOn(u, q) == \A i, j \in Elems(q) : u[i] = u[j]
CubeDens(a) == (a[1] * a[2]) * (a[1] * a[2]) + (a[2] * a[3]) * (a[2] * a[3]) + (a[3] * a[1]) * (a[3] * a[1])
(* minus 75000 times the anisotropy energy (cubic part: axes x, y, z) *)
AnisoX(M, u) ==
    Sum(LAMBDA t : LET v == Vol(M, M.tets[t].r) IN
                   v.k * V6(M, t) * QuadOf(u, M.tets[t].q, v.uk, 4) - 20 * v.k3 * V6(M, t) * CubeDens(u[M.tets[t].q[1]]), MagTets(M))
    + 5 * Sum(LAMBDA x : LET a == Area2(M, x.q) IN
                         x.s.ks * (Abs(a[1]) + Abs(a[2]) + Abs(a[3])) * QuadOf(u, x.q, x.s.uk, 3), MagTris(M))
AnisoExact(M, u) ==
    /\ \A t \in MagTets(M) : Vol(M, M.tets[t].r).k3 # 0 => UniformOn(u, M.tets[t].q)
    /\ \A x \in MagTris(M) : x.s.ks # 0 => Cardinality({k \in 1 .. 3 : Area2(M, x.q)[k] # 0}) = 1
(* 25 times the cosine of the largest angle between adjacent nodes *)
MinDot(u, T) == LET D == {25} \cup UNION {{Dot(u[i], u[j]) : i, j \in e} : e \in T} IN CHOOSE x \in D : \A y \in D : x <= y
MinDotMag(M, u) == MinDot(u, {Elems(M.tets[t].q) : t \in MagTets(M)})
MinDotAll(M, u) == MinDot(u, {Elems(M.tets[t].q) \cap MagNodes(M) : t \in TetIx(M)})
==============================================================================
