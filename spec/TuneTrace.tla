----------------------------- MODULE TuneTrace -----------------------------
(* Accesses to the settings of a block device recorded around a copy (C18).  *)
(* set: per setting its initial value (init) and the value wanted; ev: s     *)
(* (setting), op "open" | "read" | "write", ok, v (value); o: outcome;       *)
(* end: what else was wrong ("ok": nothing); intr: an interrupt was sent     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
Of(T, s) == SelectSeq(T.ev, LAMBDA e : e.s = s)
Writes(T, s) == SelectSeq(T.ev, LAMBDA e : e.s = s /\ e.op = "write" /\ e.ok)
Final(T, s) == LET w == Writes(T, s) IN IF w = <<>> THEN T.set[s].init ELSE w[Len(w)].v
\* the kernel refused to take the old value back
RestoreFailed(T, s) == LET e == Of(T, s) IN \E i, j \in 1..Len(e) : i < j /\ e[i].op = "write" /\ e[i].ok /\ e[i].v # T.set[s].init /\ ~e[j].ok
SetViol(T, s) ==
       If(Final(T, s) # T.set[s].init /\ ~RestoreFailed(T, s), "C18_restored")
  \cup If(T.set[s].init = T.set[s].want /\ \E i \in 1..Len(T.ev) : T.ev[i].s = s /\ T.ev[i].op = "write", "C18_written")
  \* nothing else than the wanted and the previous value is ever set
  \cup If(\E i \in 1..Len(Writes(T, s)) : Writes(T, s)[i].v \notin {T.set[s].init, T.set[s].want}, "C18_value")
Viol(T) == SetViol(T, 1) \cup SetViol(T, 2)
  \cup If(T.o = "fail" /\ T.end = "ok" /\ ~T.intr /\ ~RestoreFailed(T, 1) /\ ~RestoreFailed(T, 2), "C18_fatal")
  \cup If(T.o = "hang", "C18_hang")
  \cup If(T.o = "ok" /\ ~T.data, "C18_data")
Hit(T) == {"changed" : s \in {x \in {1, 2} : Writes(T, x) # <<>>}} \cup If(T.intr, "interrupt") \cup If(T.o = "ok", "success") \cup If(T.end # "ok", T.end)
          \cup If(RestoreFailed(T, 1) \/ RestoreFailed(T, 2), "restore_failed")
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> Hit(Traces[t])]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
