------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* The settings of a simulation are defined by layers: the built-in        *)
(* defaults, the user's defaults, the settings file of the simulation.     *)
(* A layer is a sequence of entries [reg, key, val]; reg is "" except for  *)
(* the parameters of a volume region (key "vol.X"), of a surface region    *)
(* (key "surf.X") and for the user metadata (key "meta", reg is the name). *)
(* A value is [t, v]: its type and its contents.                           *)
(* Settings give each key its effective value, and tell which layers are   *)
(* malformed.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Absent == [t |-> "absent", v |-> 0]
Null == [t |-> "null", v |-> 0]
Str(s) == [t |-> "str", v |-> s]
IntV(n) == [t |-> "int", v |-> n]
Num(s) == [t |-> "num", v |-> s]
Bool(b) == [t |-> "bool", v |-> b]
Vec(x) == [t |-> "vec", v |-> x]
Lst(l) == [t |-> "list", v |-> l]
Defined(x) == x.t \notin {"absent", "null"}

Default == "__default__"

(* value of (reg, key) in layer l *)
Get(l, reg, key) ==
    LET s == SelectSeq(l, LAMBDA e : e.key = key /\ e.reg = reg)
    IN  IF s = <<>> THEN Absent ELSE s[Len(s)].val

(* the last of a sequence of values that is defined *)
RECURSIVE LastDefined(_)
LastDefined(vs) ==
    IF vs = <<>> THEN Absent
    ELSE IF Defined(vs[Len(vs)]) THEN vs[Len(vs)] ELSE LastDefined(SubSeq(vs, 1, Len(vs) - 1))

(* the last that is given at all, even as null *)
RECURSIVE LastGiven(_)
LastGiven(vs) ==
    IF vs = <<>> THEN Absent
    ELSE IF vs[Len(vs)].t # "absent" THEN vs[Len(vs)] ELSE LastGiven(SubSeq(vs, 1, Len(vs) - 1))

(* The saturation magnetization may be given as Js = mu0 Ms; the entry      *)
(* "vol.JsMs" is the Ms it stands for.                                      *)
Val(l, reg, key) ==
    IF key = "vol.Ms" /\ ~Defined(Get(l, reg, key)) /\ Defined(Get(l, reg, "vol.JsMs"))
    THEN Get(l, reg, "vol.JsMs") ELSE Get(l, reg, key)

Values(ls, reg, key) == [i \in 1 .. Len(ls) |-> Val(ls[i], reg, key)]

(* ---------------------------------------------------------------- strings *)
Char(s, i) == SubSeq(s, i, i)
RECURSIVE LastPos(_, _, _)
LastPos(s, c, i) == IF i = 0 THEN 0 ELSE IF Char(s, i) = c THEN i ELSE LastPos(s, c, i - 1)
Basename(s) == SubSeq(s, LastPos(s, "/", Len(s)) + 1, Len(s))
Stem(s) ==
    LET b == Basename(s)
        d == LastPos(b, ".", Len(b))
    IN  IF d = 0 THEN b ELSE SubSeq(b, 1, d - 1)

(* ----------------------------------------------------------- plain scalars *)
NormDir(s) ==
    IF s = "" THEN "."
    ELSE IF Len(s) > 1 /\ Char(s, Len(s)) = "/" THEN SubSeq(s, 1, Len(s) - 1) ELSE s

(* number of output times between snapshots; false means none *)
NormPeriod(x) ==
    IF x.t = "bool" THEN IntV(0)
    ELSE IF x.v < 0 THEN IntV(0) ELSE x

NormThreads(x, ncpu) == IF x.v <= 0 THEN IntV(ncpu) ELSE x

Scalar(ls, key, ncpu) ==
    LET x == LastDefined(Values(ls, "", key))
    IN  CASE key = "outputs.directory" -> Str(NormDir(x.v))
          [] key = "outputs.mag_config_every" -> NormPeriod(x)
          [] key = "demagnetizing_field_solver.nb_threads" -> NormThreads(x, ncpu)
          [] key = "outputs.file_basename" ->
                IF x.t = "str" /\ x.v # "" THEN x
                ELSE LET f == LastDefined(Values(ls, "", "mesh.filename"))
                     IN  IF f.t = "str" THEN Str(Stem(f.v)) ELSE Str("")
          [] OTHER -> x

(* ----------------------------------------------------------------- regions *)
(* A region exists as soon as a layer names it (key "vol" or "surf").       *)
Names(l, what) == {l[i].reg : i \in {j \in 1 .. Len(l) : l[j].key = what}}
RegionsOf(ls, what) == UNION {Names(ls[i], what) : i \in 1 .. Len(ls)} \ {Default}
FirstLayer(ls, what, reg) == CHOOSE i \in 1 .. Len(ls) : reg \in Names(ls[i], what)
                                /\ \A j \in 1 .. (i - 1) : reg \notin Names(ls[j], what)

(* Parameter of a region: the last layer defining it for this region, or    *)
(* else the last one defining it for all regions.                           *)
Own(ls, reg, key) == LastDefined(Values(ls, reg, key))
Common(ls, key) == LastDefined(Values(ls, Default, key))
Param(ls, reg, key) == IF Defined(Own(ls, reg, key)) THEN Own(ls, reg, key) ELSE Common(ls, key)

(* Whether that is all there is to say: a default defined in a layer that   *)
(* comes after the one which introduced the region is left open.            *)
Settled(ls, what, reg, key) ==
    \/ Defined(Own(ls, reg, key))
    \/ \A j \in (FirstLayer(ls, what, reg) + 1) .. Len(ls) : ~Defined(Val(ls[j], Default, key))

(* The boundary conditions have no default, and null means "none".          *)
Boundary == {"surf.jn", "surf.V", "surf.uP", "surf.s"}
BoundaryParam(ls, reg, key) ==
    LET x == LastGiven(Values(ls, reg, key)) IN IF Defined(x) THEN x ELSE Null

RegParam(ls, reg, key) == IF key \in Boundary THEN BoundaryParam(ls, reg, key) ELSE Param(ls, reg, key)

(* ------------------------------------------------ magnetization and field *)
Whole == {"initial_magnetization", "Bext"}

(* ---------------------------------------------------------------- metadata *)
MetaNames(ls) == UNION {Names(ls[i], "meta") : i \in 1 .. Len(ls)}
Meta(ls, name) == LastDefined(Values(ls, name, "meta"))

(* ------------------------------------------------------- what --verify hides *)
(* Parameters that have no effect may be left out of the effective settings. *)
Zero(x) == x.t = "num" /\ x.v = "0"
MayZero(ls, what, reg, key) == ~Settled(ls, what, reg, key) \/ Zero(RegParam(ls, reg, key))
May(ls, reg, key) ==
    CASE key = "vol.uk" -> MayZero(ls, "vol", reg, "vol.K")
      [] key \in {"vol.ex", "vol.ey", "vol.ez"} -> MayZero(ls, "vol", reg, "vol.K3")
      [] key = "surf.uk" -> MayZero(ls, "surf", reg, "surf.Ks")
      [] key \in {"surf.uP", "surf.s", "spin_accumulation.V_file"} ->
            LastDefined(Values(ls, "", "spin_accumulation.enable")).v = FALSE
      [] key \in {"recentering.direction", "recentering.threshold"} ->
            LastDefined(Values(ls, "", "recentering.enable")).v = FALSE
      [] OTHER -> FALSE

(* ------------------------------------------------------------- comparisons *)
Abs(x) == IF x < 0 THEN -x ELSE x
Scale == 1000000
RECURSIVE ISqrt(_, _)
ISqrt(n, r) == IF r * r >= n THEN r ELSE ISqrt(n, r + 1)
Norm(x) == ISqrt(x[1] * x[1] + x[2] * x[2] + x[3] * x[3], 0)
(* u (in units of 1/Scale) is the unit vector along x, whose norm is an integer *)
IsUnit(u, x) == Norm(x) # 0 /\ \A i \in 1 .. 3 : Abs(u[i] * Norm(x) - x[i] * Scale) <= Norm(x)
IsSame(u, x) == \A i \in 1 .. 3 : Abs(u[i] - x[i] * Scale) <= 1

(* o is what the program reports for the effective value x of key *)
Same(key, o, x) ==
    IF x.t = "vec"
    THEN o.t = "vec" /\ (IF key = "surf.s" THEN IsSame(o.v, x.v) ELSE IsUnit(o.v, x.v))
    ELSE IF ~Defined(x) THEN o.t \in {"null", "absent"} \/ (o.t = "str" /\ o.v = "")
    ELSE o.t = x.t /\ o.v = x.v

(* ------------------------------------------------------- malformed layers *)
Positive == {"mesh.length_unit"}
Numeric == {"outputs.evol_time_step", "outputs.final_time", "mesh.length_unit", "initial_time",
            "recentering.threshold", "finite_element_solver.tolerance", "time_integration.max(du)",
            "time_integration.min(dt)", "time_integration.max(dt)", "vol.Ae", "vol.Ms", "vol.Js", "vol.K", "vol.K3",
            "vol.alpha_LLG", "vol.sigma", "vol.dens_state", "vol.P", "vol.l_sd", "vol.l_sf", "surf.Ks",
            "surf.jn", "surf.V"}
Integral == {"outputs.mag_config_every", "demagnetizing_field_solver.nb_threads", "finite_element_solver.max(iter)"}
Boolean == {"recentering.enable", "spin_accumulation.enable", "spin_accumulation.V_file", "surf.suppress_charges"}
Vector == {"vol.uk", "vol.ex", "vol.ey", "vol.ez", "surf.uk", "surf.uP", "surf.s"}
Section == {"outputs", "mesh", "mesh.volume_regions", "mesh.surface_regions", "outputs.metadata"}

BadEntry(e) ==
    CASE ~Defined(e.val) -> FALSE
      [] e.key \in Positive /\ e.val.t = "num" -> SubSeq(e.val.v, 1, 1) = "-" \/ e.val.v = "0"
      [] e.key \in Numeric -> e.val.t # "num"
      [] e.key = "outputs.mag_config_every" -> ~(e.val.t = "int" \/ (e.val.t = "bool" /\ e.val.v = FALSE))
      [] e.key \in Integral -> e.val.t # "int"
      [] e.key \in Boolean -> e.val.t # "bool"
      [] e.key \in Vector -> ~(e.val.t = "vec" /\ Len(e.val.v) = 3)
      [] e.key = "recentering.direction" -> ~(e.val.t = "str" /\ e.val.v \in {"X", "Y", "Z"})
      [] e.key = "outputs.evol_columns" -> ~(e.val.t = "list" /\ Len(e.val.v) > 0)
      [] e.key \in Section -> e.val.t # "map"
      [] e.key = "initial_magnetization" ->
            ~(e.val.t \in {"file", "function"} \/ (e.val.t = "exprs" /\ Len(e.val.v) = 3))
      [] e.key = "Bext" ->
            ~(e.val.t \in {"function", "spacetime"} \/ (e.val.t = "exprs" /\ Len(e.val.v) = 3))
      [] OTHER -> FALSE

BadLayer(l) ==
    \/ \E i \in 1 .. Len(l) : BadEntry(l[i])
    \/ \E r \in Names(l, "vol") : Defined(Get(l, r, "vol.Ms")) /\ Defined(Get(l, r, "vol.Js"))

(* A surface has either a current or a potential. *)
BadBoundary(ls) ==
    \E n \in 1 .. Len(ls) : LET p == SubSeq(ls, 1, n) IN
        \E r \in Names(ls[n], "surf") : r # Default
            /\ Defined(BoundaryParam(p, r, "surf.jn")) /\ Defined(BoundaryParam(p, r, "surf.V"))

Malformed(ls) == (\E n \in 1 .. Len(ls) : BadLayer(ls[n])) \/ BadBoundary(ls)

(* --------------------------------------------- where the user's defaults are *)
(* env: xdg, home: "unset", "empty" or "set"; a file may exist in each place. *)
UserFile(env) ==
    IF env.xdg = "set" THEN (IF env.xdgFile THEN "xdg" ELSE "none")
    ELSE IF env.home = "set" /\ env.homeFile THEN "home" ELSE "none"
==============================================================================
