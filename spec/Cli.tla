--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line: options, then one settings file ("-" is the standard  *)
(* input).  Help, version, defaults and template win in that order over    *)
(* anything else, and only print.  --verify reads the settings and prints  *)
(* them.  Otherwise the simulation runs.                                   *)
(*                                                                         *)
(* The world: what the settings file and the standard input hold, what is  *)
(* at the place of the output directory, the number of rows asked for by   *)
(* the settings and by the personal defaults (0: not given).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Meaning(o) == CASE o \in {"-h", "--help"} -> "help"
                [] o \in {"-V", "--version"} -> "version"
                [] o = "--print-defaults" -> "defaults"
                [] o = "--print-template" -> "template"
                [] o = "--verify" -> "verify"
                [] o \in {"-v", "--verbose"} -> "verbose"
                [] o = "--seed" -> "seed"
                [] OTHER -> "none"
(* --seed takes the next word, unless it is the last one *)
RECURSIVE Rest(_, _)
Rest(a, i) == IF i > Len(a) \/ Meaning(a[i]) = "none" THEN i ELSE IF Meaning(a[i]) = "seed" /\ i < Len(a) THEN Rest(a, i + 2) ELSE Rest(a, i + 1)
RECURSIVE Given(_, _)
Given(a, i) == IF i > Len(a) \/ Meaning(a[i]) = "none" THEN {}
               ELSE {Meaning(a[i])} \cup Given(a, IF Meaning(a[i]) = "seed" /\ i < Len(a) THEN i + 2 ELSE i + 1)
Prints == <<"help", "version", "defaults", "template">>
Does(a) == LET g == Given(a, 1)
               p == {k \in 1 .. 4 : Prints[k] \in g}
           IN  IF p # {} THEN Prints[CHOOSE k \in p : \A l \in p : k <= l]
               ELSE IF Rest(a, 1) # Len(a) THEN "usage"
               ELSE IF "verify" \in g THEN "verify" ELSE "run"
FileOf(a) == a[Len(a)]
(* what the named settings hold: "good", "bad" (refused), "none" (nothing there) *)
Holds(w, f) == IF f = "-" THEN w.stdin ELSE IF f = "s.yml" THEN w.file ELSE "none"
(* the personal defaults: in XDG_CONFIG_HOME if it is set, or in HOME/.config *)
Personal(w) == IF w.xdgset THEN w.xdg ELSE w.home
Rows(w) == IF w.rows # 0 THEN w.rows ELSE IF Personal(w) # 0 THEN Personal(w) ELSE 1

Expect(a, w) ==
    LET d == Does(a)
        h == Holds(w, FileOf(a))
        nothing == [ok |-> TRUE, made |-> FALSE, rows |-> 0]
        fail == [ok |-> FALSE, made |-> FALSE, rows |-> 0]
    IN  CASE d \in {"help", "version", "defaults", "template"} -> nothing
          [] d = "usage" -> fail
          [] d = "verify" -> IF h = "good" THEN nothing ELSE fail
          [] d = "run" -> IF h # "good" \/ w.dir \in {"file", "orphan"} THEN fail ELSE [ok |-> TRUE, made |-> w.dir = "absent", rows |-> Rows(w) + 1]
==============================================================================
