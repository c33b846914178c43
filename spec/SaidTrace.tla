----------------------------- MODULE SaidTrace ------------------------------
(* What runs of the command line have said against CopyRules (C29).          *)
(* T: cmd "copy": w (the world), end (how it was made to fail, "no", "slow"),*)
(*   o, used, said (verified and failed as sequences), out (something was    *)
(*   written to the standard output), noise (more than warnings and errors), *)
(*   time (what was said about time and speed is possible)                   *)
(* cmd "create": o, file (written to a file), out, written "bmap" | "no" |   *)
(*   "other" (contents of the standard output, of the file), all (blocks are *)
(*   mapped), warned, error, figures (in the bmap are right)                 *)
(* cmd "figures": o, copy of an image of any size: said (it is "right" |     *)
(*   "wrong" | "none"), must: it must be said                                *)
EXTENDS CopyRules, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
Range(s) == {s[i] : i \in 1..Len(s)}
World(T) == [T.w EXCEPT !.ex = Range(T.w.ex)]
Said(T) == [T.said EXCEPT !.verified = Range(@), !.failed = Range(@)]
Named(S) == {"C29_" \o x : x \in S}
CopyViol(T) == LET w == World(T) s == Said(T) IN
       Named(SaidFalse(w, s))
  \cup Named(IF T.o = "hang" THEN {"hang"} ELSE SaidNot(w, T.o, T.used, s))
  \cup If(T.out, "C29_stdout")
  \cup If(w.quiet /\ T.noise /\ T.o = "ok", "C29_quiet")
  \cup If(s.sync /\ T.end \in {"sum", "short"}, "C29_sync")
  \cup If(~T.time, "C29_time")
CreateViol(T) ==
       If(T.o = "hang", "C29_hang")
  \cup If(T.o = "ok" /\ T.out # (IF T.file THEN "no" ELSE "bmap"), "C29_stdout")
  \cup If(T.o = "ok" /\ T.file /\ T.written # "bmap", "C29_file")
  \cup If(T.o = "fail" /\ T.out # "no", "C29_stdout")
  \cup If(T.error # (T.o = "fail"), "C29_error")
  \cup If(T.o = "ok" /\ T.warned # T.all, "C29_warning")
  \cup If(T.o = "ok" /\ ~T.figures, "C29_figures")
FiguresViol(T) == If(T.said = "wrong" \/ (T.must /\ T.said = "none"), "C29_figures") \cup If(T.o = "hang", "C29_hang")
Viol(T) == IF T.cmd = "copy" THEN CopyViol(T) ELSE IF T.cmd = "create" THEN CreateViol(T) ELSE FiguresViol(T)
Hit(T) == {T.cmd, T.o} \cup (IF T.cmd = "copy" THEN {"end_" \o T.end} \cup {"by_" \o x : x \in Range(T.said.verified)} \cup {"not_" \o x : x \in Range(T.said.failed)}
                              \cup If(T.said.whole, "whole") \cup If(T.said.figures # <<>>, "bmap_figures") \cup If(T.said.found # <<>>, "found") \cup If(T.w.quiet, "quiet")
                              \cup If(T.end = "fsync" /\ T.said.sync, "sync_only")
                             ELSE IF T.cmd = "create" THEN If(T.warned, "warned") \cup If(~T.warned, "not_warned") ELSE {})
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> Hit(Traces[t])]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
