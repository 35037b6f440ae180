-------------------------------- MODULE CliMC --------------------------------
(***************************************************************************)
(* The options read one after the other, for all the command lines of up   *)
(* to Depth words: what this reader does is what Cli says.                 *)
(***************************************************************************)
EXTENDS Cli
CONSTANTS Depth
VARIABLES args, i, seen, state
Words == {"-h", "-V", "--print-defaults", "--print-template", "--verify", "-v", "--seed", "7", "s.yml", "-", "--other"}
Init == args \in UNION {[1 .. n -> Words] : n \in 0 .. Depth} /\ i = 1 /\ seen = {} /\ state = "options"
Option == state = "options" /\ i <= Len(args) /\ Meaning(args[i]) # "none"
          /\ seen' = seen \cup {Meaning(args[i])}
          /\ i' = (IF Meaning(args[i]) = "seed" /\ i < Len(args) THEN i + 2 ELSE i + 1)
          /\ UNCHANGED <<args, state>>
First(s) == IF "help" \in s THEN "help" ELSE IF "version" \in s THEN "version" ELSE IF "defaults" \in s THEN "defaults" ELSE IF "template" \in s THEN "template" ELSE "go"
Ended == IF i > Len(args) THEN TRUE ELSE Meaning(args[i]) = "none"
Stop == state = "options" /\ Ended
        /\ state' = (IF First(seen) # "go" THEN First(seen) ELSE IF i # Len(args) THEN "usage" ELSE IF "verify" \in seen THEN "verify" ELSE "run")
        /\ UNCHANGED <<args, i, seen>>
Next == Option \/ Stop
Spec == Init /\ [][Next]_<<args, i, seen, state>>
Agrees == state # "options" => state = Does(args)
World == [stdin |-> "good", file |-> "good", dir |-> "absent", rows |-> 0, xdgset |-> TRUE, xdg |-> 2, home |-> 3]
(* Nothing is made unless the simulation runs. *)
Harmless == state \notin {"options", "run"} => LET e == Expect(args, World) IN ~e.made /\ e.rows = 0
(* The file is the last word. *)
Last == state \in {"run", "verify"} => Meaning(FileOf(args)) = "none"
==============================================================================
