---------------------------- MODULE SourceTrace ----------------------------
(* Copies from failing sources (C15). Every copy: n bytes of the image, good *)
(* the number of bytes of it that the source correctly delivers, len how     *)
(* many it delivers (correct or not), fails "yes"                            *)
(* | "no" | "maybe" (whether source or decompressor report the failure),     *)
(* bmap: with a bmap whose last mapped byte is need, slack: bytes that a     *)
(* failing decompressor may keep back, o: outcome, exact: the needed data    *)
(* arrived                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
Need(f) == IF f.bmap THEN f.need ELSE f.n
CopyViol(f) ==
       If(~f.bmap /\ f.fails = "yes" /\ f.good < f.n /\ f.o = "ok", "C15_accepted")
  \cup If(f.bmap /\ f.len < f.need /\ f.o = "ok", "C15_accepted")
  \cup If(f.o = "ok" /\ f.good >= Need(f) /\ ~f.exact, "C15_wrong")
  \cup If(f.fails = "no" /\ f.good >= f.n /\ f.o = "fail", "C15_refused")
  \cup If(f.bmap /\ f.need + f.slack <= f.good /\ f.o = "fail", "C15_tail_needed")
  \cup If(f.o = "hang", "C15_hang")
Viol(T) == UNION {CopyViol(T.copies[i]) : i \in 1..Len(T.copies)}
Bad(T) == {i \in 1..Len(T.copies) : CopyViol(T.copies[i]) # {}}
Hit(T) == {(IF f.bmap THEN "bmap_" ELSE "nobmap_") \o f.o : f \in {T.copies[i] : i \in 1..Len(T.copies)}}
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), bad |-> Bad(Traces[t]), hit |-> Hit(Traces[t])]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
