---------------------------- MODULE CommandTrace ----------------------------
(* Runs of the command line against CopyRules. T: prop (the property asked   *)
(* for), cmd "copy" | "create", w (the world), o "ok" | "fail" | "hang",     *)
(* used (the bmap that explains what was written; 999: nothing does),        *)
(* wrote (image data were written), touched (roles of changed inputs)        *)
EXTENDS CopyRules, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
World(T) == [T.w EXCEPT !.ex = {T.w.ex[i] : i \in 1..Len(T.w.ex)}]
Touched(T) == {T.touched[i] : i \in 1..Len(T.touched)}
CopyViol(T) == LET w == World(T) IN
       If(T.o = "ok" /\ Allowed(w) = {Refuse}, T.prop \o "_accepted")
  \cup If(T.o = "ok" /\ Allowed(w) # {Refuse} /\ T.used \notin Allowed(w), T.prop \o "_used")
  \cup If(T.o = "fail" /\ Refuse \notin Allowed(w), T.prop \o "_refused")
  \cup If(T.o = "fail" /\ T.wrote, T.prop \o "_wrote")
  \cup If(T.o = "hang", T.prop \o "_hang")
  \cup If(Touched(T) \ (IF w.alias \in Reads(w) THEN {} ELSE {w.alias}) # {}, "C21_modified")
CreateViol(T) ==
       If(T.o = "ok" /\ T.w.alias = "image", "C21_accepted")
  \cup If(T.o = "fail" /\ T.w.alias # "image" /\ T.fault = "", "C21_refused")
  \cup If(T.o = "hang", "C21_hang")
  \cup If(T.touched # <<>>, "C21_modified")
\* a copy to a block device: busy, known "yes" | "no" | "maybe" (the size of the image in advance), size, cap, excl (all
\* writes were exclusive), changed (the device has), exact (all wanted data have arrived)
DeviceViol(T) == LET fits == T.size <= T.cap IN
       If(T.o = "ok" /\ (T.busy \/ ~fits), "C19_accepted")
  \cup If(T.o = "fail" /\ ~T.busy /\ fits, "C19_refused")
  \cup If(T.o = "ok" /\ ~T.exact, "C19_data")
  \cup If(T.busy /\ (T.wrote \/ T.changed), "C19_busy")
  \cup If(~fits /\ T.known = "yes" /\ (T.wrote \/ T.changed), "C19_written")
  \cup If(T.wrote /\ ~T.excl, "C19_notexclusive")
  \cup If(T.o = "hang", "C19_hang")
\* a copy which cannot have the memory it needs
MemoryViol(T) == If(T.o = "ok" /\ ~T.exact, "C07_success") \cup If(T.o = "hang", "C07_hang")
Viol(T) == IF T.cmd = "memory" THEN MemoryViol(T) ELSE IF T.cmd = "device" THEN DeviceViol(T) ELSE IF T.cmd = "copy" THEN CopyViol(T) ELSE CreateViol(T)
Hit(T) == {T.o} \cup (IF T.cmd = "memory" THEN {"no_memory"} ELSE IF T.cmd = "device" THEN If(T.busy, "busy") \cup If(T.size > T.cap /\ ~T.busy, "too_big_" \o T.known) \cup If(T.size = T.cap /\ T.o = "ok", "exact_fit") ELSE IF T.cmd = "copy" THEN If(T.o = "ok" /\ T.used = Given, "given") \cup If(T.o = "ok" /\ T.used = All, "all") \cup If(T.o = "ok" /\ T.used \in 1..9, "discovered")
                        \cup If(World(T).alias \in Reads(World(T)), "aliased") ELSE {"create"})
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> Hit(Traces[t])]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
