------------------------------- MODULE LlgTrace ------------------------------
(***************************************************************************)
(* Conformance of the motion in the real program.                          *)
(*  kind = "step"    the first step of a run: T.m, T.u (fifths), T.p, T.b,  *)
(*                   T.a (ten times the damping of each tetrahedron), T.w   *)
(*                   (motion / q * 1000), T.noise                           *)
(*  kind = "time"    final states of runs with time steps h, h/2, h/4       *)
(*  kind = "decay"   total energy in the rows of a run in a constant field, *)
(*                   and whether all the rates are known                    *)
(***************************************************************************)
EXTENDS Llg, Verdict
VARIABLES tid, done
T == Traces[tid]
M == T.m
MaxNorm(v) == LET a == Abs(v[1]) b == Abs(v[2]) c == Abs(v[3]) IN IF a >= b /\ a >= c THEN a ELSE IF b >= c THEN b ELSE c
StepBad ==
    Chk("C29.run", T.rc = 0 /\ Len(T.w) = Len(M.nodes))
    \cup (IF T.rc # 0 \/ Len(T.w) # Len(M.nodes) THEN {} ELSE
          LET mag == MagNodes(M)
              F == [i \in mag |-> Force(M, T.u, T.p, T.b, i)]
              big == 8 * (CHOOSE x \in {MaxNorm(F[i]) : i \in mag} : \A i \in mag : x >= MaxNorm(F[i]))
              Diff(i) == Sub(MotionLeft(M, T.u, T.a, T.w[i], i), MotionRight(M, T.u, F[i], i))
              Tol(i) == big \div T.rel + (1 + T.noise) * (Alpha10(M, T.a, i) + 20 * NodeV6(M, i)) + 300
          IN  UNION {Chk("C29.motion", MaxNorm(Diff(i)) <= Tol(i)) : i \in mag})
Dist(a, b) == LET D == {MaxNorm(Sub(a[i], b[i])) : i \in 1 .. Len(a)} IN CHOOSE x \in D : \A y \in D : x >= y
TimeBad ==
    Chk("C30.run", T.rc = 0 /\ Len(T.h) = Len(T.h2) /\ Len(T.h2) = Len(T.h4) /\ Len(T.h) > 0)
    \cup (IF Len(T.h) # Len(T.h2) \/ Len(T.h2) # Len(T.h4) \/ Len(T.h) = 0 THEN {}
          ELSE LET a == Dist(T.h, T.h2) b == Dist(T.h2, T.h4) IN
               Chk("C30.converges", 100 * b <= T.ratio * a + 100 * T.floor) \cup Chk("C30.close", a <= T.bound))
(* The energy lost in a step is alpha mu0 Ms / (gamma0 dt) times the sum of  *)
(* the volumes times the squared motions.                                   *)
Lost(w) == Sum(LAMBDA i : Alpha10(M, T.a, i) * Dot(w[i], w[i]), MagNodes(M))
DecayBad ==
    Chk("C30.run", T.rc = 0 /\ Len(T.e) > 1)
    \cup (IF T.check THEN
          UNION {Chk("C30.decreases", T.e[k + 1] <= T.e[k]) : k \in 1 .. (Len(T.e) - 1)}
          \cup UNION {LET l == Lost(T.w[k]) IN Chk("C30.rate", Abs((T.e[k] - T.e[k + 1]) - l) <= l \div T.rel + T.slack) : k \in 1 .. Len(T.w)}
          ELSE {})
Bad == CASE T.kind = "step" -> StepBad [] T.kind = "time" -> TimeBad [] OTHER -> DecayBad
Init == tid \in 1 .. Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid /\ Report(tid, Bad)
Spec == Init /\ [][Next]_<<tid, done>>
==============================================================================
