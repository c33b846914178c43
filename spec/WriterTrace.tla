---------------------------- MODULE WriterTrace ----------------------------
(* The standalone writer and the copy command against the same contract: the *)
(* destination has the image's contents in mapped blocks, zeros elsewhere,   *)
(* and the image's size. cells: <<block, 1 if inside the image>>.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
Mapped(T, b) == \E i \in 1..Len(T.ranges) : T.ranges[i][1] <= b /\ b <= T.ranges[i][2]
Want(T) == [i \in 1..Len(T.cells) |-> IF T.cells[i][2] = 1 /\ Mapped(T, T.cells[i][1]) THEN T.src[i] ELSE 0]
Viol(T) == IF T.must = "error" THEN If(T.rc = 0, "C23_missing") ELSE
       If(T.rc # 0, "C23_failed")
  \cup If(T.rc = 0 /\ T.w # Want(T), "C23_contents")
  \cup If(T.rc = 0 /\ T.wsize # T.isize, "C23_size")
  \cup If(T.rc = 0 /\ T.crc # 0, "C23_copy_disagrees")
  \cup If(T.rc = 0 /\ T.crc = 0 /\ (~T.same \/ T.d # T.w \/ T.dsize # T.wsize), "C23_differs")
  \cup If(~T.inputs, "C23_inputs")
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> If(Traces[t].rc = 0, "ok")]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
