----------------------------- MODULE RestartTrace ----------------------------
(***************************************************************************)
(* Conformance of starts of the real program.                              *)
(*  kind = "file"    a file made of lines, a mesh of T.n nodes: refused or *)
(*                   loaded; times in T.unit; values are numbers of T.pal  *)
(*  kind = "pair"    a configuration saved by a run (T.saved) and the one  *)
(*                   that a second run saves at once after loading it      *)
(*  kind = "plain"   no file                                               *)
(*  kind = "resume"  rows of a run, and of the run resumed from its middle *)
(***************************************************************************)
EXTENDS Restart, Verdict
VARIABLES tid, done
T == Traces[tid]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Len(a) = Len(b) /\ \A c \in 1 .. Len(a) : Abs(a[c] - b[c]) <= tol
TimeBad(want) == Chk("C08.row", T.rowt = want) \cup Chk("C08.saved", T.solt = want)
FileBad ==
    IF ~Loads(T.file, T.n) THEN Chk("C07.refused", T.rc # 0) \cup Chk("C07.nofiles", ~T.files)
    ELSE LET s == Loaded(T.file, T.n) IN
         Chk("C07.loads", T.rc = 0)
         \cup (IF T.rc # 0 THEN {} ELSE TimeBad(StartTime(T.init, s.t))
               \cup Chk("C07.values", Len(T.mag) = T.n /\ \A i \in 1 .. T.n : Near(T.mag[i], T.pal[s.u[i]], 1)))
PairBad ==
    Chk("C07.loads", T.rc = 0)
    \cup (IF T.rc # 0 THEN {} ELSE
          Chk("C07.count", Len(T.saved) = Len(T.mag))
          \cup (IF Len(T.saved) # Len(T.mag) THEN {} ELSE
                UNION {Chk("C07.nodes", T.saved[i].nan = T.mag[i].nan /\ Near(T.saved[i].u, T.mag[i].u, 1)) : i \in 1 .. Len(T.mag)}
                \cup UNION {Chk("C07.potential", Abs(T.saved[i].p - T.mag[i].p) <= T.ptol) : i \in 1 .. Len(T.mag)})
          \cup TimeBad(StartTime(T.init, T.filet)))
PlainBad == Chk("C08.start", T.rc = 0) \cup TimeBad(StartTime(T.init, None))
ResumeBad ==
    Chk("C08.rows", Len(T.first) = Len(T.second))
    \cup UNION {Chk("C08.times", T.first[i].t = T.second[i].t)
                \cup Chk("C08.evolution", Near(T.first[i].m, T.second[i].m, T.mtol)) :
                i \in 1 .. (IF Len(T.first) < Len(T.second) THEN Len(T.first) ELSE Len(T.second))}
Bad == CASE T.kind = "file" -> FileBad [] T.kind = "pair" -> PairBad [] T.kind = "plain" -> PlainBad [] OTHER -> ResumeBad
Init == tid \in 1 .. Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid /\ Report(tid, Bad)
Spec == Init /\ [][Next]_<<tid, done>>
==============================================================================
