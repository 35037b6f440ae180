------------------------------ MODULE RestartMC ------------------------------
(***************************************************************************)
(* Files that differ from a saved configuration by a few edits of lines:   *)
(* a line removed, repeated, exchanged with the next one, or replaced.     *)
(***************************************************************************)
EXTENDS Restart, Json
CONSTANTS N, MaxEdits, Emit
VARIABLES f, edits, orig

L(k, ix, v) == [k |-> k, ix |-> ix, v |-> v]
Rows == [i \in 1 .. N |-> L("row", i - 1, i)]
Heads == {<<L("time", 0, 3)>>, <<L("comment", 0, 0), L("time", 0, 3), L("comment", 0, 0)>>, <<L("time", 0, 3), L("blank", 0, 0), L("comment", 0, 0)>>,
          <<L("time", 0, 3), L("comment", 0, 0), L("time", 0, 5)>>, <<L("comment", 0, 0)>>, <<>>}
Tails == {<<>>, <<L("blank", 0, 0)>>, <<L("row", N, 1)>>, <<L("comment", 0, 0)>>}
Subst == {L("comment", 0, 0), L("blank", 0, 0), L("time", 0, 7), L("badtime", 0, 0)}
         \cup {L(k, ix, N + 1) : k \in {"row", "extra", "short", "bad"}, ix \in {0, 1, N - 1, N}}
Print1 == Emit => PrintT("CASE " \o ToJson(f'))
Init == \E h \in Heads, t \in Tails : f = h \o Rows \o t /\ orig = f /\ edits = -1
Same == edits = -1 /\ edits' = 0 /\ UNCHANGED <<f, orig>> /\ Print1
Drop == \E i \in 1 .. Len(f) : f' = SubSeq(f, 1, i - 1) \o SubSeq(f, i + 1, Len(f))
Twice == \E i \in 1 .. Len(f) : f' = SubSeq(f, 1, i) \o SubSeq(f, i, Len(f))
Swap == \E i \in 1 .. Len(f) - 1 : f' = [f EXCEPT ![i] = f[i + 1], ![i + 1] = f[i]]
Repl == \E i \in 1 .. Len(f), l \in Subst : f' = [f EXCEPT ![i] = l]
Edit == edits >= 0 /\ edits < MaxEdits /\ (Drop \/ Twice \/ Swap \/ Repl) /\ edits' = edits + 1 /\ UNCHANGED orig /\ Print1
Next == Same \/ Edit
Spec == Init /\ [][Next]_<<f, edits, orig>>

RoundTrip == Loads(f, N) => LET s == Loaded(f, N) IN Loads(Save(s), N) /\ Loaded(Save(s), N) = s
(* what a file that loads says cannot be missing, doubled or shuffled *)
Faithful == Loads(f, N) => /\ Cardinality({i \in 1 .. Len(f) : f[i].k \in {"row", "extra"}}) = N
                           /\ \A i \in 1 .. N : \E j \in 1 .. Len(f) : f[j].k \in {"row", "extra"} /\ f[j].ix = i - 1 /\ Loaded(f, N).u[i] = f[j].v
                           /\ ~\E j \in 1 .. Len(f) : f[j].k \in {"short", "bad", "badtime"}
Sizes == Loads(f, N) => ~Loads(f, N + 1) /\ ~Loads(f, N - 1)
==============================================================================
