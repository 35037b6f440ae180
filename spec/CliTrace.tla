------------------------------ MODULE CliTrace -------------------------------
(***************************************************************************)
(* The real program against Cli: T.args, T.w (world), T.o (observed): rc,  *)
(* made (the directory was made), rows (of the .evol file, 0: no file), kept  *)
(* (all that was there is as it was), said (the kind of text printed), err *)
(* (something on the standard error).  Repeated runs: T.pairs of           *)
(* [same: the runs must agree exactly, equal, close].                      *)
(***************************************************************************)
EXTENDS Cli, Verdict
VARIABLES tid, done
T == Traces[tid]
One(x) == LET e == Expect(x.args, x.w) d == Does(x.args) o == x.o IN
    Chk("C25.status", (o.rc = 0) = e.ok)
    \cup Chk("C25.made", o.made = e.made)
    \cup Chk("C25.rows", o.rows = e.rows)
    \cup Chk("C25.kept", o.kept)
    \cup Chk("C25.message", ~e.ok => o.err)
    \cup Chk("C25.printed", d \in {"help", "version", "defaults", "template"} => o.said = d)
    \cup Chk("C25.printed", d = "verify" /\ e.ok => o.said = "settings")
Bad == IF T.kind = "cli" THEN One(T)
       ELSE Chk("C25.reproducible", T.same => T.equal) \cup Chk("C25.close", T.close) \cup Chk("C25.complete", T.complete)
Init == tid \in 1 .. Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid /\ Report(tid, Bad)
Spec == Init /\ [][Next]_<<tid, done>>
==============================================================================
