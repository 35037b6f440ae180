---------------------------- MODULE TransportTrace ---------------------------
(***************************************************************************)
(* The real program against Transport: T.m, T.rc, T.files (an output file  *)
(* exists), T.lc, T.v (potential; its hundredths are in T.fine), T.rows:   *)
(* [u, s] of each saved configuration; T.first: the motion in the first    *)
(* step [u, a, b, w, noise] or <<>>.                                       *)
(***************************************************************************)
EXTENDS Transport, Verdict
VARIABLES tid, done
T == Traces[tid]
M == T.m
Max3(v) == LET a == Abs(v[1]) b == Abs(v[2]) c == Abs(v[3]) IN IF a >= b /\ a >= c THEN a ELSE IF b >= c THEN b ELSE c
SJ(s) == IF s.jn # NoVal THEN [c \in 1 .. 3 |-> -(s.jn * s.up[c] * (KK \div 5))] ELSE Scale(KK, s.sv)
Dirichlet(i) == {SJ(s) : s \in {Surf(M, M.tris[x].r) : x \in {y \in TrisHere(M, i) : LET z == Surf(M, M.tris[y].r) IN (z.jn # NoVal) # (z.sv # <<>>)}}}
Close(a, b) == Max3(Sub(a, b)) <= 1
VBad ==
    UNION {Chk("C21.held", \A x \in TrisHere(M, i) : LET s == Surf(M, M.tris[x].r) IN s.v # NoVal => Abs(T.v[i] - KK * s.v) <= 1) : i \in Held(M)}
    \cup UNION {Chk("C21.conserved", Abs(Outflow(M, T.lc, T.v, i) - Injected(M, T.lc, i)) <= FlowTol(M, T.lc, i)) : i \in NodesOf(M) \ Held(M)}
    \cup UNION {Chk("C21.precise", LET o == Outflow(M, T.lc, T.v, i) - Injected(M, T.lc, i)
                                  IN  Abs(o) <= FlowTol(M, T.lc, i) => Abs(100 * o + Outflow(M, T.lc, T.fine, i)) <= 2 * FlowTol(M, T.lc, i)) : i \in NodesOf(M) \ Held(M)}
RowBad(r) ==
    UNION {Chk("C22.given", \E d \in Dirichlet(i) : Close(r.s[i], d)) : i \in HeldSpin(M)}
    \cup UNION {Chk("C22.diffusion", Max3(Sub(SpinLeft(M, T.lc, r.u, r.s, i), SpinRight(M, T.lc, r.u, T.v, i))) <= SpinTol(M, T.lc, T.v, r.s, i)) : i \in NodesOf(M) \ HeldSpin(M)}
StepBad(f, s) ==
    LET mag == MagNodes(M)
        F == [i \in mag |-> Add(ForceZeeman(M, i, f.b), ForceSpin(M, s, i))]
        big == 8 * (CHOOSE x \in {Max3(F[i]) : i \in mag} : \A i \in mag : x >= Max3(F[i]))
        Diff(i) == Sub(MotionLeft(M, f.u, f.a, f.w[i], i), MotionRight(M, f.u, F[i], i))
        Tol(i) == big \div 100 + (1 + f.noise) * (Alpha10(M, f.a, i) + 20 * NodeV6(M, i)) + 300
    IN  UNION {Chk("C22.torque", Max3(Diff(i)) <= Tol(i)) : i \in mag}
Bad ==
    Chk("C21.run", Conditions(M) => T.rc = 0 /\ Len(T.v) = Len(M.nodes) /\ Len(T.rows) >= T.expect)
    \cup Chk("C22.refused", ~Conditions(M) => T.rc # 0 /\ ~T.files)
    \cup (IF Conditions(M) /\ Len(T.v) = Len(M.nodes) THEN VBad \cup UNION {RowBad(T.rows[k]) : k \in 1 .. Len(T.rows)} ELSE {})
    \cup (IF Conditions(M) /\ T.first # <<>> /\ Len(T.rows) > 0 THEN StepBad(T.first[1], T.rows[1].s) ELSE {})
Init == tid \in 1 .. Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid /\ Report(tid, Bad)
Spec == Init /\ [][Next]_<<tid, done>>
==============================================================================
