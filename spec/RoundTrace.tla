----------------------------- MODULE RoundTrace -----------------------------
(* create followed by copy: composition of the creation and the copy         *)
(* contracts. The destination equals the image and has holes exactly where   *)
(* the image is not mapped.                                                  *)
EXTENDS Runs, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
Viol(T) == LET M == Window(0, T.nb) \cap Blocks(T.ext)
               H == {T.holes[i] : i \in 1..Len(T.holes)} IN
       If(T.create # "ok", "C24_create")
  \cup If(T.create = "ok" /\ T.copy # "ok", "C24_copy")
  \cup (IF T.copy = "ok"
        THEN If(T.dst # T.src \/ ~T.exact, "C24_contents") \cup If(T.dsize # T.isize, "C24_size") \cup If(H # Window(0, T.nb) \ M, "C24_holes")
        ELSE {})
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> If(Traces[t].copy = "ok", "ok")]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
