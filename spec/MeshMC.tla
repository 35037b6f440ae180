------------------------------- MODULE MeshMC --------------------------------
(***************************************************************************)
(* All the small meshes: a base of three tetrahedra that may share a face, *)
(* each one absent, in region A, in region B or in a group unknown to the  *)
(* settings, with any set of at most two surface triangles, in either      *)
(* orientation.  The laws of the completion of the surfaces are checked on *)
(* all of them, and the cases are printed for the real program.            *)
(***************************************************************************)
EXTENDS MeshModel, Json
CONSTANTS Emit, MaxTris

Pts == <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<1, 1, -3>>, <<4, 3, 2>>>>
Cand == <<<<1, 2, 3, 4>>, <<1, 2, 5, 3>>, <<4, 2, 3, 6>>, <<2, 1, 3, 6>>>>   \* the last one shares 1 2 3 with two others
Regs == {"A", "B", "other", ""}
TriCand == {<<1, 2, 3>>, <<3, 2, 1>>, <<2, 3, 4>>, <<4, 3, 2>>, <<1, 2, 4>>, <<1, 5, 2>>, <<2, 3, 6>>, <<1, 4, 6>>}
Ms == [A |-> {0, 2}, B |-> {1}]

VARIABLES m, done, st
D == [n |-> "", sup |-> FALSE, ks |-> 0, uk |-> <<0, 0, 5>>]
Mk(rs, ts, msA) ==
    LET on == {i \in 1 .. 4 : rs[i] # ""}
        sq == SetToSeq(on)
        sr == {"A", "B"} \cap {rs[i] : i \in on}
        ss == SetToSeq({ts[i].r : i \in 1 .. Len(ts)} \ {"T"})
        vs == SetToSeq(sr)
    IN  [nodes |-> Pts, tets |-> [i \in 1 .. Len(sq) |-> [r |-> rs[sq[i]], q |-> Cand[sq[i]]]], tris |-> ts,
         vols |-> [i \in 1 .. Len(vs) |-> [n |-> vs[i], ms |-> IF vs[i] = "A" THEN msA ELSE 1, ae |-> 0, k |-> 0, uk |-> <<5, 0, 0>>, k3 |-> 0]],
         surfs |-> [i \in 1 .. Len(ss) |-> [D EXCEPT !.n = ss[i]]], dsurf |-> D]

Print1(x) == Emit => PrintT("CASE " \o ToJson([nodes |-> x.nodes, tets |-> x.tets, tris |-> x.tris, vols |-> x.vols, surfs |-> x.surfs]))
Init == /\ \E rs \in [1 .. 4 -> Regs], msA \in {0, 2} :
             /\ {"A", "B"} \cap {rs[i] : i \in 1 .. 4} # {}
             /\ (msA = 0 => "A" \in {rs[i] : i \in 1 .. 4})
             /\ m = Mk(rs, <<>>, msA)
             /\ st = [rs |-> rs, msA |-> msA]
        /\ done = 0
Base == done = 0 /\ done' = 1 /\ UNCHANGED <<m, st>> /\ Print1(m)
AddTri == /\ done = Len(m.tris) + 1
          /\ Len(m.tris) < MaxTris
          /\ \E q \in TriCand, r \in {"S"} \cup (IF m.tris = <<>> THEN {"T"} ELSE {"R"}) :
                m' = Mk(st.rs, Append(m.tris, [r |-> r, q |-> q]), st.msA)
          /\ done' = done + 1
          /\ Print1(m')
          /\ UNCHANGED st
Next == Base \/ AddTri
Spec == Init /\ [][Next]_<<m, done, st>>

(* Laws *)
CompleteLegal == Legal(m) => LET c == Complete(m) IN Legal(c) /\ Missing(c) = {} /\ NbTris(c) = NbTris(m)
Neutral == (Legal(m) /\ ~Folded(m)) => TotalCharge(m) = Zero
FlipJump == Legal(m) => \A t \in TriIx(m) : LET q == m.tris[t].q IN Jump(m, <<q[1], q[3], q[2]>>) = -Jump(m, q)
Uncovered == Legal(m) => \A f \in TetFaces(m) : (Cardinality(Owners(m, f)) = 2 /\ OneRegion(m, f)) \/ f \in Missing(m) \/ f \in TriFaces(m)
GradSum == \A t \in TetIx(m) : /\ SumVec(LAMBDA k : Grad(m, t, k), 1 .. 4) = Zero
                               /\ \A k \in 1 .. 4 : Dot(Grad(m, t, k), Sub(m.nodes[m.tets[t].q[k]], m.nodes[m.tets[t].q[(k % 4) + 1]])) = V6(m, t)
==============================================================================
