----------------------------- MODULE SettingsMC -----------------------------
(***************************************************************************)
(* Exploration of Settings: for every key, every pair of contents of the   *)
(* two upper layers.  TLC checks the laws below on each of them, and       *)
(* prints the cases that are replayed in the real program.                 *)
(***************************************************************************)
EXTENDS Settings, TLC, Json, SequencesExt

CONSTANT Emit

E(k, x) == [reg |-> "", key |-> k, val |-> x]
R(r, k, x) == [reg |-> r, key |-> k, val |-> x]

Nums == {Num("0.25"), Num("3e-09"), Num("12345678")}
Names2 == {Str("n1"), Str("n 2: x"), Str("d/e.f.msh"), Str("sub/n3")}

(* the contents that a layer can give to a key, besides nothing at all *)
Cand(k) ==
    {Null} \cup
    CASE k = "outputs.directory" -> {Str(""), Str("o1"), Str("o2/"), Str("p/o3"), Str("o 4/")}
      [] k = "outputs.file_basename" -> {Str(""), Str("b1"), Str("b.2 #x"), Str("null")}
      [] k = "mesh.filename" -> {Str("m1.msh"), Str("d.1/m2"), Str("/a/m.3.msh"), Str("")}
      [] k = "outputs.mag_config_every" -> {IntV(0), IntV(7), IntV(-3), Bool(FALSE), Bool(TRUE), Num("2.5")}
      [] k = "demagnetizing_field_solver.nb_threads" -> {IntV(0), IntV(3), IntV(-2), Str("many")}
      [] k = "finite_element_solver.max(iter)" -> {IntV(1), IntV(123456), Str("x")}
      [] k \in Positive -> Nums \cup {Num("-1e-09"), Num("0"), Str("nm")}
      [] k \in Numeric -> Nums \cup {Num("0"), Num("-7.5"), Str("fast")}
      [] k \in Boolean -> {Bool(TRUE), Bool(FALSE), Str("maybe")}
      [] k = "recentering.direction" -> {Str("X"), Str("Y"), Str("Z"), Str("W"), Str("XY"), Str("x")}
      [] k \in Vector -> {Vec(<<3, 4, 0>>), Vec(<<0, 0, 2>>), Vec(<<-2, 3, 6>>), Vec(<<1, 2>>), Vec(<<1, 2, 2, 1>>), Str("X")}
      [] k = "outputs.evol_columns" -> {Lst(<<"t">>), Lst(<<"<Mx>", "iter", "E_tot">>), Lst(<<"A:<Mz>", "t">>), Lst(<<>>), Str("t")}
      [] k = "initial_magnetization" ->
            {[t |-> "exprs", v |-> <<"1", "x", "y*z">>], [t |-> "exprs", v |-> <<"\"a\".length", "0", "sin(x)">>],
             [t |-> "exprs", v |-> <<"1", "2">>], [t |-> "exprs", v |-> <<"1", "2", "3", "4">>], [t |-> "file", v |-> "start.sol"], [t |-> "file", v |-> "my start: 1.sol"],
             [t |-> "function", v |-> "function(x, y, z) { return [1, x, 0]; }"], [t |-> "map", v |-> 0],
             [t |-> "jsbad", v |-> "function(x, y, z) { return [1, x, ; }"]}
      [] k = "Bext" ->
            {[t |-> "exprs", v |-> <<"t", "0", "1e-3">>], [t |-> "exprs", v |-> <<"1", "2", "3", "4">>], [t |-> "exprs", v |-> <<"1", "t">>],
             [t |-> "function", v |-> "function(t) { return [t, 0, 1]; }"],
             [t |-> "spacetime", v |-> <<"function(x, y, z) { return [x, 1, 0]; }", "function(t) { return 2*t; }">>],
             [t |-> "halfspace", v |-> 0], [t |-> "spacelist", v |-> 0], [t |-> "jsbad", v |-> "function(t) { return t"]}
      [] k \in Section -> {Str("text"), Lst(<<"a">>), [t |-> "map", v |-> 0]}
      [] OTHER -> {}

Keys == {"outputs.directory", "outputs.file_basename", "mesh.filename", "recentering.direction",
         "outputs.evol_columns", "initial_magnetization", "Bext"}
        \cup Integral \cup {k \in Numeric \cup Boolean : Get(<<E(k, Null)>>, "", k) = Null /\ SubSeq(k, 1, 4) \notin {"vol.", "surf"}}
        \cup Section
VolKeys == {k \in Numeric \cup Vector : SubSeq(k, 1, 4) = "vol."}
SurfKeys == {k \in Numeric \cup Boolean \cup Vector : SubSeq(k, 1, 5) = "surf."}

VARIABLES case, done
vars == <<case, done>>

(* One entry, with what it needs around it. *)
Entry(k, r, x) ==
    IF k \in VolKeys THEN <<R(r, "vol", Null), R(r, k, x)>>
    ELSE IF k \in SurfKeys THEN <<R(r, "surf", Null), R(r, k, x)>>
    ELSE <<E(k, x)>>

Opt(k, r) == {<<>>} \cup {Entry(k, r, x) : x \in Cand(k)}

(* makes the parameter visible in the effective settings *)
Context(k) ==
    CASE k = "vol.uk" -> <<R("A", "vol", Null), R("A", "vol.K", Num("1000"))>>
      [] k \in {"vol.ex", "vol.ey", "vol.ez"} -> <<R("A", "vol", Null), R("A", "vol.K3", Num("1000"))>>
      [] k = "surf.uk" -> <<R("A", "surf", Null), R("A", "surf.Ks", Num("0.001"))>>
      [] k \in {"surf.uP", "surf.s"} -> <<R("A", "surf", Null), E("spin_accumulation.enable", Bool(TRUE))>>
      [] k = "spin_accumulation.V_file" -> <<E("spin_accumulation.enable", Bool(TRUE))>>
      [] k \in {"recentering.direction", "recentering.threshold"} -> <<E("recentering.enable", Bool(TRUE))>>
      [] k = "outputs.file_basename" -> <<E("mesh.filename", Str("d.x/me.sh.msh"))>>
      [] k \in VolKeys -> <<R("A", "vol", Null)>>
      [] k \in SurfKeys -> <<R("A", "surf", Null)>>
      [] OTHER -> <<>>

Case(k, u, s) == [key |-> k, user |-> u, sim |-> Context(k) \o s]

Single(k) == \E u \in Opt(k, ""), s \in Opt(k, "") : case = Case(k, u, s)
Regional(k) ==  \* defaults and regions
    \/ \E d \in Opt(k, Default), u \in Opt(k, "A"), s \in Opt(k, "A") : case = Case(k, d \o u, s)
    \/ \E d \in Opt(k, Default), e \in Opt(k, Default), s \in Opt(k, "A") : case = Case(k, d, e \o s)
(* a current and a potential on the same surface; Ms and Js in the same region *)
Pairs ==
    \/ \E a \in Opt("surf.jn", "A"), b \in {<<>>, Entry("surf.V", "A", Num("2.5"))},
          c \in {<<>>, Entry("surf.jn", "A", Num("0.5")), Entry("surf.jn", "A", Null)},
          d \in {<<>>, Entry("surf.V", "A", Num("0")), Entry("surf.V", "A", Null)} : case = Case("surf.jn", a \o b, c \o d)
    \/ \E a \in {<<>>, Entry("vol.Ms", "A", Num("1e+06")), Entry("vol.Ms", "A", Num("0")), Entry("vol.Ms", Default, Num("0"))}, b \in {<<>>, Entry("vol.Js", "A", Num("1.5"))},
          c \in {<<>>, Entry("vol.Ms", "A", Num("2e+06"))}, d \in {<<>>, Entry("vol.Js", "A", Num("0.5"))} :
            case = Case("vol.Ms", a \o b, c \o d)
(* user metadata *)
M(n, s) == <<R(n, "meta", Str(s))>>
MetaOpt == {<<>>, M("author", "me"), M("author", "you"), M("note 2", "a: b # c"), M("author", "x") \o M("z", ""), M("z", "w") \o M("author", "y")}
MetaCases == \E u, s \in MetaOpt : case = [key |-> "meta", user |-> u, sim |-> s]
(* two regions in a different order, defined in different layers *)
Two == \E u \in {<<>>, Entry("vol.Ae", "A", Num("3e-09")), Entry("vol.Ae", "B", Num("2")), Entry("vol.K", "A", Num("5")) \o Entry("vol.Ae", "B", Num("2"))},
          s \in {Entry("vol.Ae", "B", Num("0.25")) \o Entry("vol.Ae", "A", Num("4")), Entry("vol.K", "A", Num("6")) \o Entry("vol.K", "B", Num("7")),
                 Entry("vol.K", "B", Num("6")), <<R("B", "vol", Null), R("A", "vol", Null)>>} :
            case = [key |-> "vol.Ae", user |-> u, sim |-> s]

Init == /\ done = FALSE
        /\ \/ \E k \in Keys : Single(k)
           \/ \E k \in (VolKeys \cup SurfKeys) \ (Boundary \cup {"vol.Js"}) : Regional(k)
           \/ \E k \in Boundary \cup {"vol.Js"} : \E u \in Opt(k, "A"), s \in Opt(k, "A") : case = Case(k, u, s)
           \/ Pairs \/ MetaCases \/ Two
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED case
        /\ IF Emit THEN PrintT("CASE " \o ToJson(case)) ELSE TRUE
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------------------- laws *)
Layers == <<case.user, case.sim>>
AKey(e) == e.key \notin {"vol", "surf", "meta"} \cup Section

(* what the simulation file says is what counts *)
SimWins ==
    \A i \in 1 .. Len(case.sim) : LET e == case.sim[i] IN
        (AKey(e) /\ Defined(e.val) /\ e.reg # Default) =>
            IF e.reg = "" THEN LastDefined(Values(Layers, "", e.key)) = Get(case.sim, "", e.key)
            ELSE RegParam(Layers, e.reg, e.key) = Get(case.sim, e.reg, e.key) \/ Get(case.sim, e.reg, e.key) = Null
(* what the simulation file does not say comes from the user's defaults *)
UserElse ==
    \A i \in 1 .. Len(case.user) : LET e == case.user[i] IN
        (AKey(e) /\ Defined(e.val) /\ e.reg \notin {Default} /\ Get(case.sim, e.reg, e.key) = Absent) =>
            IF e.reg = "" THEN LastDefined(Values(Layers, "", e.key)) = Get(case.user, "", e.key)
            ELSE RegParam(Layers, e.reg, e.key) = Get(case.user, e.reg, e.key)
(* a malformed layer cannot be repaired by a later one, except for jn and V *)
NoRepair == (\E n \in 1 .. 2 : BadLayer(Layers[n])) => Malformed(Layers)
(* repeating a layer changes nothing *)
Idempotent ==
    LET twice == <<case.user, case.sim, case.sim>>
    IN  /\ Malformed(twice) = Malformed(Layers)
        /\ \A i \in 1 .. Len(case.sim) : LET e == case.sim[i] IN
            AKey(e) => IF e.reg = "" THEN LastDefined(Values(twice, "", e.key)) = LastDefined(Values(Layers, "", e.key))
                       ELSE RegParam(twice, e.reg, e.key) = RegParam(Layers, e.reg, e.key)
==============================================================================
