------------------------------- MODULE Verdict -------------------------------
(***************************************************************************)
(* Shared by the conformance modules.  The recorded observations are read  *)
(* from traces.json (a sequence of records); each behaviour of a trace     *)
(* specification consumes one of them, collects the labels of the          *)
(* requirements that it breaks, and prints its verdict at the end.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Traces == JsonDeserialize("traces.json")
Chk(label, cond) == IF cond THEN {} ELSE {label}
Has(r, f) == f \in DOMAIN r
Report(tid, bad) == PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Range(s) == {s[i] : i \in 1 .. Len(s)}
==============================================================================
