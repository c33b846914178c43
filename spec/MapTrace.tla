------------------------------ MODULE MapTrace ------------------------------
(* Recorded answers of Filemap objects against the definition in Runs.       *)
(* A trace is one file: its extents (in blocks), its number of blocks, and   *)
(* answers [k |-> kind of query, s |-> start, c |-> count, r |-> ranges,     *)
(* b |-> answer of a per-block query, x |-> exception]                       *)
EXTENDS Runs, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done

If(c, n) == IF c THEN {n} ELSE {}
AnswerViol(M, a) ==
  IF a.x # "" THEN {"C12_error"}
  ELSE CASE a.k = "m"  -> If(~IsRuns(a.r, Window(a.s, a.c) \cap M), "C12_mapped")
         [] a.k = "u"  -> If(~IsRuns(a.r, Window(a.s, a.c) \ M), "C12_unmapped")
         [] a.k = "bm" -> If(a.b # (a.s \in M), "C12_block")
         [] a.k = "bu" -> If(a.b # (a.s \notin M), "C12_block")
         [] OTHER -> {"C12_error"}
Viol(T) == LET M == Blocks(T.ext) IN
           (IF T.x # "" THEN {"C12_error"} ELSE {})
           \cup If(T.x = "" /\ (T.blocks # T.nb \/ T.isize # T.rsize), "C12_size")
           \cup UNION {AnswerViol(M, T.answers[i]) : i \in 1..Len(T.answers)}
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> {}]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
