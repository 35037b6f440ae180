------------------------------- MODULE Restart -------------------------------
(***************************************************************************)
(* Saved configurations (.sol files) and how a run starts from one.        *)
(* A file is a sequence of lines [k, ix, v]:                               *)
(*   comment, blank      no information                                    *)
(*   time (v: a number), badtime                                           *)
(*   row (of node ix, with value v), extra (the same with more columns),   *)
(*   short (missing columns), bad (not numbers)                            *)
(* A state is [t, u]: the time, and u a sequence of values, one per node.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == -2000000000

Header == {"comment", "blank", "time", "badtime"}
HeaderLen(f) == LET S == {n \in 0 .. Len(f) : \A i \in 1 .. n : f[i].k \in Header}
                IN  CHOOSE n \in S : \A m \in S : n >= m
Times(f) == {i \in 1 .. HeaderLen(f) : f[i].k = "time"}
LastTime(f) == f[CHOOSE i \in Times(f) : \A j \in Times(f) : i >= j].v
Complete(l, ix) == l.k \in {"row", "extra"} /\ l.ix = ix
Loads(f, n) ==
    LET h == HeaderLen(f) IN
    /\ Times(f) # {}
    /\ \A i \in 1 .. h : f[i].k # "badtime"
    /\ Len(f) >= h + n
    /\ \A i \in 1 .. n : Complete(f[h + i], i - 1)
    /\ \A i \in h + n + 1 .. Len(f) : f[i].k = "blank"
Loaded(f, n) == [t |-> LastTime(f), u |-> [i \in 1 .. n |-> f[HeaderLen(f) + i].v]]

Save(s) == <<[k |-> "comment", ix |-> 0, v |-> 0], [k |-> "time", ix |-> 0, v |-> s.t], [k |-> "comment", ix |-> 0, v |-> 0]>>
           \o [i \in 1 .. Len(s.u) |-> [k |-> "row", ix |-> i - 1, v |-> s.u[i]]]

(* The time at which a run starts: the one of the settings, else the one of *)
(* the file, else zero.                                                     *)
StartTime(init, fileTime) == IF init # None THEN init ELSE IF fileTime # None THEN fileTime ELSE 0
==============================================================================
