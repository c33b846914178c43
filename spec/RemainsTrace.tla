---------------------------- MODULE RemainsTrace ----------------------------
(* What recorded runs left behind, against Remains: when the command has     *)
(* ended there are no temporary files and no helper processes. T: o ("ok",   *)
(* "fail", "intr", "hang"), files (unexpected files beside inputs and        *)
(* outputs), tmp (files in the directory for temporary files), procs, and    *)
(* for repeated use of the API in one process: what the process had before   *)
(* and after (descriptors, children, threads)                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
Viol(T) == IF T.kind = "run"
  THEN If(T.files # <<>>, "C26_file") \cup If(T.tmp # <<>>, "C26_tmp") \cup If(T.procs # <<>> /\ T.o # "hang", "C26_process") \cup If(T.o = "hang", "C26_hang")
  ELSE If(T.after[1] > T.before[1], "C26_descriptor") \cup If(T.after[2] > T.before[2], "C26_child") \cup If(T.after[3] > T.before[3], "C26_thread")
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> {Traces[t].kind \o "_" \o Traces[t].o}]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
