----------------------------- MODULE MemoryTrace ----------------------------
(* Runs on a small and on a big image (C30).  T.small, T.o: how they ended   *)
(* with the same limit of memory ("ok", "fail", "hang"), the limit being as  *)
(* small as the small one allows, plus what buffers may take (Memory!Bounded)*)
(* T.read: KiB read from the image where that is known, or -1; T.mapped: KiB *)
(* mapped; T.ranges: number of ranges.  T.written: KiB written, or -1.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
\* Memory!Work: twice, and what buffered reading may read too much at each range
ReadBound(T) == 2 * T.mapped + 2048 * (T.ranges + 1)
WriteBound(T) == T.mapped + 1024
Viol(T) ==
       If(T.small # "ok", "C30_small")
  \cup If(T.small = "ok" /\ T.o # "ok", "C30_memory")
  \cup If(T.o = "ok" /\ T.read >= 0 /\ T.read > ReadBound(T), "C30_reads")
  \cup If(T.o = "ok" /\ T.read >= 0 /\ T.read < T.mapped, "C30_unread")
  \cup If(T.o = "ok" /\ T.written >= 0 /\ T.written > WriteBound(T), "C30_writes")
Hit(T) == {T.o, T.sc.who, T.sc.tr, T.sc.comp, T.sc.map, T.sc.data} \cup If(T.read >= 0, "reads") \cup If(T.read >= 0 /\ ReadBound(T) < T.size, T.sc.who \o "_holes")
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> Hit(Traces[t])]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
