---------------------------- MODULE SymmetryTrace ----------------------------
(***************************************************************************)
(* Conformance of pairs of runs of the real program.                       *)
(*  kind = "pair"   T.m, T.m2: two descriptions of one system, T.g and     *)
(*                  T.same say how; T.rows, T.rows2: what the runs report: *)
(*                  scalars s with tolerances T.stol, vectors v (T.vtol),  *)
(*                  magnetization u and potential p of each node           *)
(*  kind = "linear" potentials of systems on the same elements, with       *)
(*                  integer factors such that their sources cancel         *)
(*  kind = "dipole" a body and nodes far from it                           *)
(*  kind = "refine" a uniform body with two meshes                         *)
(* Labels are prefixed by T.prop.                                          *)
(***************************************************************************)
EXTENDS Symmetry, Verdict
VARIABLES tid, done
T == Traces[tid]
L(s) == T.prop \o "." \o s
SameRecord == [x \in {T.same[i][1] : i \in 1 .. Len(T.same)} |-> (CHOOSE i \in 1 .. Len(T.same) : T.same[i][1] = x)]
SameMap == [x \in DOMAIN SameRecord |-> T.same[SameRecord[x]][2]]
NearV(a, b, tol) == \A c \in 1 .. 3 : Abs(a[c] - b[c]) <= tol
(* The two inputs do describe one system: a fact about the experiment. *)
Related == IsRotation(T.g.R) /\ IsPerm(T.g.perm, Len(T.m.nodes)) /\ SameSystem(Act(T.g, T.m), T.m2, SameMap)
RowBad(a, b) ==
    UNION {Chk(L(T.names[i]), Abs(a.s[i] - b.s[i]) <= T.stol[i]) : i \in 1 .. Len(a.s)}
    \cup UNION {Chk(L(T.vnames[i]), NearV(Rot(T.g.R, a.v[i]), b.v[i], T.vtol[i])) : i \in 1 .. Len(a.v)}
    \cup Chk(L("magnetization"), Len(a.u) = Len(b.u) /\ \A i \in 1 .. Len(a.u) : i <= Len(T.g.perm) /\ NearV(Rot(T.g.R, a.u[i]), b.u[T.g.perm[i]], T.utol))
    \cup Chk(L("potential"), Len(a.p) = Len(b.p) /\ \A i \in 1 .. Len(a.p) : i <= Len(T.g.perm) /\ Abs(a.p[i] - b.p[T.g.perm[i]]) <= T.ptol)
PairBad ==
    Chk("experiment.pair", Related)
    \cup Chk(L("status"), T.rc = T.rc2)
    \cup Chk(L("rows"), Len(T.rows) = Len(T.rows2))
    \cup UNION {RowBad(T.rows[k], T.rows2[k]) : k \in 1 .. (IF Len(T.rows) < Len(T.rows2) THEN Len(T.rows) ELSE Len(T.rows2))}

(* Sources: volume charges of the tetrahedra, surface charges of the faces  *)
(* at their three nodes (for one orientation of the face).                  *)
Parity(q, o) == IF <<q[1], q[2], q[3]>> \in {<<o[1], o[2], o[3]>>, <<o[2], o[3], o[1]>>, <<o[3], o[1], o[2]>>} THEN 1 ELSE -1
VolSource(S, t) == LET r == S.m.tets[t].r IN Vol(S.m, r).ms * DivX(S.m, S.u, t)
FaceSource(S, f) ==
    LET o == Oriented(f)
        c == Covers(S.m, f)
        sup == IF c = {} THEN S.m.dsurf.sup ELSE \E t \in c : Surf(S.m, S.m.tris[t].r).sup
    IN  IF sup THEN Zero ELSE [k \in 1 .. 3 |-> Jump(S.m, o) * Dot(S.u[o[k]], Area2(S.m, o))]
Sy == T.systems
Faces == {f \in TetFaces(Sy[1].m) : \E k \in 1 .. Len(Sy) : IsBoundary(Sy[k].m, f)}
SourcesCancel ==
    /\ \A k \in 1 .. Len(Sy) : Sy[k].m.nodes = Sy[1].m.nodes /\ [t \in 1 .. Len(Sy[k].m.tets) |-> Elems(Sy[k].m.tets[t].q)] = [t \in 1 .. Len(Sy[1].m.tets) |-> Elems(Sy[1].m.tets[t].q)]
    /\ \A t \in TetIx(Sy[1].m) : Sum(LAMBDA k : Sy[k].c * VolSource(Sy[k], t), 1 .. Len(Sy)) = 0
    /\ \A f \in Faces : SumVec(LAMBDA k : Scale(Sy[k].c, FaceSource(Sy[k], f)), 1 .. Len(Sy)) = Zero
Common == {i \in 1 .. Len(Sy[1].m.nodes) : \A k \in 1 .. Len(Sy) : i \in MagNodes(Sy[k].m)}
LinearBad ==
    Chk("experiment.sources", SourcesCancel)
    \cup Chk(L("run"), \A k \in 1 .. Len(Sy) : Sy[k].rc = 0)
    \cup Chk(L("saved"), \A k \in 1 .. Len(Sy) : Len(Sy[k].p) = Len(Sy[1].m.nodes))
    \cup (IF \E k \in 1 .. Len(Sy) : Len(Sy[k].p) # Len(Sy[1].m.nodes) THEN {}
          ELSE Chk(L("superposition"), \A i \in Common : Abs(Sum(LAMBDA k : Sy[k].c * Sy[k].p[i], 1 .. Len(Sy))) <= T.tol))

(* A small body around the origin seen from far, at distance T.r: the odd   *)
(* part of the potential is that of its moment.  120 * moment is MomentX;   *)
(* T.p is the potential times 4 pi 10^5, r^3 = 27000: 81 (p1 - p2) = 5 mo.r  *)
MomentX(M, u) == SumVec(LAMBDA t : Scale(Vol(M, M.tets[t].r).ms * V6(M, t), USum(M, u, t)), MagTets(M))
DipoleBad ==
    Chk(L("run"), T.rc = 0 /\ Len(T.p) = Len(T.m.nodes))
    \cup (IF Len(T.p) # Len(T.m.nodes) THEN {}
          ELSE LET mo == MomentX(T.m, T.u)
                   big == Sum(LAMBDA t : Vol(T.m, T.m.tets[t].r).ms * V6(T.m, t), MagTets(T.m)) * 20   \* 120 * moment if it were saturated
               IN  UNION {LET r == T.m.nodes[T.pairs[i][1]]
                          IN  Chk(L("far"), Abs(81 * (T.p[T.pairs[i][1]] - T.p[T.pairs[i][2]]) - 5 * Dot(mo, r)) <= (big * T.r) \div 100) : i \in 1 .. Len(T.pairs)})
(* The demagnetizing factors of a body sum up to one (10^6): the error of   *)
(* the discretization decreases when the mesh is refined.                   *)
RefineBad ==
    LET Err(e) == Abs(1000000 - (e[1] + e[2] + e[3])) IN
    Chk(L("positive"), \A k \in 1 .. 3 : T.coarse[k] > 0 /\ T.fine[k] > 0)
    \cup Chk(L("sum"), Err(T.fine) <= 230000)
    \cup Chk(L("converges"), 100 * (Err(T.fine) \div 100) <= 42 * (Err(T.coarse) \div 100))
Bad == CASE T.kind = "pair" -> PairBad [] T.kind = "linear" -> LinearBad [] T.kind = "refine" -> RefineBad [] OTHER -> DipoleBad
Init == tid \in 1 .. Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid /\ Report(tid, Bad)
Spec == Init /\ [][Next]_<<tid, done>>
==============================================================================
