---------------------------- MODULE SettingsTrace ----------------------------
(***************************************************************************)
(* Conformance of the settings reported by the real program.  A trace has  *)
(*   layers  the contents of the layers (built-in defaults first), in the  *)
(*           order of precedence, the user's one being where env tells     *)
(*   env     environment and files of the user's defaults                  *)
(*   users   the contents of the candidate user files                      *)
(*   rc      accepted / rejected; vout: output files were left             *)
(*   out     the reported settings, as a layer                             *)
(*   again   those reported when given the report                          *)
(*   effect  what a run has written, and what the run of the report writes *)
(***************************************************************************)
EXTENDS Settings, Verdict

VARIABLES tid, done
T == Traces[tid]

User == LET f == UserFile(T.env) IN IF f = "none" THEN <<>> ELSE T.users[f]
Ls == <<T.base, User, T.sim>>
P == T.prop

KeyBad(o, e) ==
    LET k == e.key IN
    CASE k \in Section \cup {"vol", "surf", "meta", "vol.Js"} -> {}
      [] e.reg = Default -> {}
      [] e.reg # "" -> LET what == IF SubSeq(k, 1, 4) = "vol." THEN "vol" ELSE "surf"
                           x == RegParam(Ls, e.reg, k)
                           y == Get(o, e.reg, k)
                       IN  IF k \notin Boundary /\ ~Settled(Ls, what, e.reg, k) THEN {}
                           ELSE Chk(P \o ".region." \o k, Same(k, y, x) \/ (y = Absent /\ May(Ls, e.reg, k)))
      [] OTHER -> LET x == Scalar(Ls, k, T.ncpu)
                      y == Get(o, "", k)
                  IN  Chk(P \o ".key." \o k, Same(k, y, x) \/ (y = Absent /\ May(Ls, "", k)))

Report2(o) ==
    UNION {KeyBad(o, T.ask[i]) : i \in 1 .. Len(T.ask)}
    \cup Chk(P \o ".volumes", Names(o, "vol") = RegionsOf(Ls, "vol"))
    \cup Chk(P \o ".surfaces", Names(o, "surf") = RegionsOf(Ls, "surf"))
    \cup Chk(P \o ".metadata", /\ Names(o, "meta") = MetaNames(Ls)
                               /\ \A n \in MetaNames(Ls) : Same("meta", Get(o, n, "meta"), Meta(Ls, n)))

(* The run of these layers and the run of the settings it reports do the same. *)
SameFile(a, b) ==
    /\ a.name = b.name /\ a.cols = b.cols /\ Len(a.rows) = Len(b.rows)
    /\ \A i \in 1 .. Len(a.rows) : Len(a.rows[i]) = Len(b.rows[i]) /\ \A j \in 1 .. Len(a.rows[i]) : Abs(a.rows[i][j] - b.rows[i][j]) <= 5
Effect ==
    IF ~T.effect.done THEN {}
    ELSE Chk(P \o ".effect", /\ T.effect.rc = 0
                             /\ Len(T.effect.first) = Len(T.effect.second)
                             /\ \A i \in 1 .. Len(T.effect.first) : SameFile(T.effect.first[i], T.effect.second[i]))

Bad ==
    IF Malformed(Ls)
    THEN Chk("C11.accepted", T.rc # 0) \cup Chk("C11.files", ~T.vout)
    ELSE IF T.rc # 0 THEN Chk(P \o ".rejected", FALSE)
    ELSE Effect \cup Report2(T.out) \cup (IF T.twice THEN Chk(P \o ".reread", T.rc2 = 0) \cup (IF T.rc2 = 0 THEN Report2(T.again) ELSE {}) ELSE {})

Init == tid \in 1 .. Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid /\ Report(tid, Bad)
Spec == Init /\ [][Next]_<<tid, done>>
==============================================================================
