------------------------------ MODULE MeshTrace ------------------------------
(***************************************************************************)
(* Conformance of one start of the real program on a mesh: acceptance,     *)
(* completion of the surfaces, initial magnetization, first row of the     *)
(* .evol file.  The observed reals are given as integers, multiplied by    *)
(* the denominators documented in MeshModel.                               *)
(*   m, rc, files (an output file was left)                                *)
(*   info      counts and volume printed by the program (if shown)         *)
(*   rule      initial magnetization: how it was defined                   *)
(*   mag       the magnetization saved: 5000 * u, or nan = TRUE            *)
(*   cols      cells of the first row: [c, r, v, fin]                      *)
(***************************************************************************)
EXTENDS MeshModel, Verdict

VARIABLES tid, done
T == Traces[tid]
M == T.m
P == T.prop
N == Len(M.nodes)

Close(a, b, tol) == Abs(a - b) <= tol

------------------------------------------------------------------------------
(* Initial magnetization.                                                   *)
Mod(a, n) == ((a % n) + n) % n
Weight(r) == LET i == CHOOSE i \in 1 .. Len(T.rule.names) : T.rule.names[i] = r IN 2 ^ (i - 1)
Want(i) ==
    LET p == M.nodes[i] IN
    CASE T.rule.k = "const" -> T.rule.pal[1]
      [] T.rule.k = "mod" -> T.rule.pal[1 + Mod(Dot(T.rule.a, p) + T.rule.d, Len(T.rule.pal))]
      [] T.rule.k = "linear" -> Add(<<Dot(T.rule.m[1], p), Dot(T.rule.m[2], p), Dot(T.rule.m[3], p)>>, T.rule.b)
      [] T.rule.k = "regions" -> T.rule.pal[1 + Mod(Sum(Weight, RegionsAt(M, i)) + T.rule.d * Dot(T.rule.a, p), Len(T.rule.pal))]
Parallel(o, w) ==
    LET c == Cross(o, w) IN Abs(c[1]) + Abs(c[2]) + Abs(c[3]) <= 3 * (Abs(w[1]) + Abs(w[2]) + Abs(w[3])) /\ Dot(o, w) > 0
MagBad ==
    Chk("C16.count", Len(T.mag) = N)
    \cup UNION {LET o == T.mag[i] IN
                IF i \in MagNodes(M)
                THEN Chk("C28.defined", ~o.nan)
                     \cup (IF o.nan THEN {} ELSE Chk("C16.direction", Parallel(o.u, Want(i))) \cup Chk("C28.unit", Abs(o.n) <= 10))
                ELSE Chk("C28.nonmagnetic", o.nan) : i \in 1 .. (IF Len(T.mag) < N THEN Len(T.mag) ELSE N)}
u == [i \in 1 .. N |-> Want(i)]   \* only used when the rule gives vectors of norm 5

------------------------------------------------------------------------------
(* Applied induction.                                                       *)
Cell(t, k) == LET q == M.tets[t].q
                  s == M.nodes[q[1]][k] + M.nodes[q[2]][k] + M.nodes[q[3]][k] + M.nodes[q[4]][k]
              IN  (s - Mod(s, 4 * T.field.l[k])) \div (4 * T.field.l[k])
BTet(t) == IF T.field.k = "uniform" THEN T.field.b
           ELSE Scale(T.field.amp, T.field.pal[1 + Mod(Dot(T.field.a, <<Cell(t, 1), Cell(t, 2), Cell(t, 3)>>), Len(T.field.pal))])
BNode(i) == LET p == M.nodes[i] IN Scale(T.field.amp, Add(<<Dot(T.field.m[1], p), Dot(T.field.m[2], p), Dot(T.field.m[3], p)>>, T.field.b))
ZeemanLin == Sum(LAMBDA t : LET q == M.tets[t].q IN
                 Vol(M, M.tets[t].r).ms * V6(M, t) *
                 (Sum(LAMBDA k : Dot(u[q[k]], BNode(q[k])), 1 .. 4)
                  + Dot(USum(M, u, t), SumVec(LAMBDA k : BNode(q[k]), 1 .. 4))), MagTets(M))
Zeeman600 == IF T.field.k = "linear" THEN ZeemanLin ELSE 5 * ZeemanX(M, u, BTet)

------------------------------------------------------------------------------
Tol(x) == 2 + Abs(x) \div 100000
Axis(c) == CASE c \in {"<Mx>", "Hx"} -> 1 [] c \in {"<My>", "Hy"} -> 2 [] OTHER -> 3
CellBad(x) ==
    LET L == Chk("C06." \o x.c \o (IF x.r = "" THEN "" ELSE ":region"), TRUE)
        Lab(ok) == Chk("C06." \o x.c \o (IF x.r = "" THEN "" ELSE ":region"), ok)
    IN  CASE x.c = "iter" -> Lab(x.fin /\ x.v = 0)
          [] x.c = "t" -> Lab(x.fin /\ x.v = T.t0)
          [] x.c \in {"<Mx>", "<My>", "<Mz>"} ->
               LET d == 20 * RegVolume6(M, x.r) IN
               IF d = 0 THEN {} ELSE Lab(x.fin /\ Abs(x.v * d - AvgNum(M, u, x.r)[Axis(x.c)] * 100000) <= 2 * d)
          [] x.c \in {"<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "max_dm"} ->
               IF RegVolume6(M, x.r) = 0 THEN {} ELSE Lab(x.fin /\ x.v = 0)
          [] x.c = "E_ex" -> IF Multiple(M, T.lcm) THEN LET e == 10 * ExchangeX(M, u, T.lcm) IN Lab(x.fin /\ Close(x.v, e, Tol(e))) ELSE {}
          [] x.c = "E_zeeman" -> Chk(IF T.field.k = "uniform" THEN "C06.E_zeeman" ELSE "C17.E_zeeman", x.fin /\ Close(x.v, -10 * Zeeman600, Tol(10 * Zeeman600)))
          [] x.c = "E_aniso" -> IF AnisoExact(M, u) THEN Lab(x.fin /\ Close(x.v, -10 * AnisoX(M, u), Tol(10 * AnisoX(M, u)))) ELSE {}
          [] x.c \in {"Hx", "Hy", "Hz"} -> IF T.field.k = "uniform" THEN Lab(x.fin /\ Close(x.v, 100000 * T.field.b[Axis(x.c)], 10)) ELSE {}
          [] x.c = "max_angle" -> Lab(x.fin /\ (Close(x.v, 1000 * MinDotMag(M, u), 3) \/ Close(x.v, 1000 * MinDotAll(M, u), 3)))
          [] x.c = "Thiele_length" ->
               LET X == ThieleX(M, u, x.r, T.lcm) IN
               IF X = 0 \/ ~Multiple(M, T.lcm) THEN {}
               ELSE LET want == (50000 * RegVolume6(M, x.r) * T.lcm) \div X IN Lab(x.fin /\ Close(x.v, want, 2 + want \div 10000))
          [] OTHER -> {}

InfoBad ==
    Chk("C13.triangles", T.info.tris = NbTris(M))
    \cup Chk("C15.tetrahedra", T.info.tets = Cardinality(TetIx(M)))
    \cup Chk("C15.nodes", T.info.nodes = N)
    \cup Chk("C15.volume", Close(T.info.vol6, 1000 * Volume6(M), 2 + Volume6(M) \div 100))
CreatedBad ==
    LET gs == Groups(M)
        ok(g, n) == \E s \in {"", ".1", ".2"} : n \in NamesFor(M, g, s) /\ n \notin SurfNames(M)
                     /\ (s = "" \/ \E s2 \in {"", ".1"} : NamesFor(M, g, s2) \cap SurfNames(M) # {})
    IN  Chk("C13.created", /\ Len(T.created) = Cardinality(gs)
                           /\ \A i, j \in 1 .. Len(T.created) : i # j => T.created[i] # T.created[j]
                           /\ \A g \in gs : \E i \in 1 .. Len(T.created) : ok(g, T.created[i]))

ColumnNames == {"iter", "t", "dt", "max_dm", "max_angle", "<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "Thiele_length",
                "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot", "Hx", "Hy", "Hz"}
ColumnsOK == \A i \in 1 .. Len(T.asked) : T.asked[i].c \in ColumnNames /\ (T.asked[i].r = "" \/ T.asked[i].r \in VolNames(M))

Bad ==
    IF T.broken # "" THEN Chk("C12.broken", T.rc # 0) \cup Chk("C12.files", ~T.files)
    ELSE IF Legal(M) /\ ~ColumnsOK THEN Chk("C06.unknown", T.rc # 0)
    ELSE IF ~Legal(M) THEN Chk("C12.accepted", T.rc # 0) \cup Chk("C12.files", ~T.files)
    ELSE IF T.rc # 0 THEN {P \o ".refused"}
    ELSE (IF T.shown THEN InfoBad ELSE {}) \cup (IF T.named THEN CreatedBad ELSE {})
         \cup (IF T.saved THEN MagBad ELSE {})
         \cup (IF T.rowed THEN UNION {CellBad(T.cols[i]) : i \in 1 .. Len(T.cols)} \cup Chk("C06.row", T.ncols = Len(T.cols)) ELSE {})
         \cup (IF T.rowed /\ T.esum # <<>> THEN Chk("C06.E_tot", Close(T.esum[1], T.esum[2] + T.esum[3] + T.esum[4] + T.esum[5], 10)) ELSE {})
         \cup (IF T.edem # <<>> THEN Chk("C06.E_demag", Close(T.edem[1], DemagX(M, u, T.edem[2]), DemagTol(M, u) + 2 + Abs(T.edem[1]) \div 10000)) ELSE {})

Init == tid \in 1 .. Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid /\ Report(tid, Bad)
Spec == Init /\ [][Next]_<<tid, done>>
==============================================================================
