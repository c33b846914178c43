---------------------------- MODULE PlacesRules ----------------------------
(* What a run may do with the place the user named, judged on the world and  *)
(* a result. The same rules judge the runs of the model (Places) and the     *)
(* recorded runs of the code (PlacesTrace).                                  *)
(* World: cmd ("copy", "create"), place, bad ("no", "sum", "cut": an image   *)
(* which does not match its bmap), map (a bmap is used), verify.             *)
(* Result: o ("ok", "fail", "hang"), data (what the place resolves to holds: *)
(* "right", "old", "wrong", "none"), node ("same", "other", "none": what the *)
(* path resolves to, compared with before), links (all symbolic links on the *)
(* way are as before), mode (mode and owner are as before), others (nothing  *)
(* else was made, altered or removed), said (an error was reported), warned  *)
(* (a warning about the place was given).                                    *)
Files == {"short", "long", "link", "chain", "hard", "dots", "mode", "devfile"}
News  == {"absent", "dangling", "newdots", "devnew"}
Bads  == {"dir", "linkdir", "slash", "nodir", "notdir", "loop", "toolong", "rofile", "rodir"}
Devs  == {"null", "full"}
Kinds == Files \cup News \cup Bads \cup Devs
Opens(p)  == p \notin Bads
InDev(p)  == p \in {"devfile", "devnew"}
Differs(w) == w.bad = "cut" \/ (w.bad = "sum" /\ w.verify)
MustFail(w) == w.place \in Bads \cup {"full"} \/ (w.cmd = "copy" /\ w.map /\ Differs(w))
MustOk(w)   == ~MustFail(w) /\ w.bad = "no"
If(c, n) == IF c THEN {n} ELSE {}
Viol(w, r) ==
       If(r.o = "hang", "C31_hang")
  \cup If(r.o = "ok" /\ MustFail(w), "C31_success")
  \cup If(r.o = "fail" /\ MustOk(w), "C31_refused")
  \cup If(r.o = "ok" /\ w.bad = "no" /\ w.place \in Files \cup News /\ r.data # "right", "C31_data")
  \cup If(w.place \in Files /\ r.node # "same", "C31_replaced")
  \cup If(w.place \in Devs /\ r.node # "same", "C31_device")
  \cup If(r.o = "ok" /\ w.place \in News /\ r.node = "none", "C31_missing")
  \cup If(w.place \in Bads /\ (r.data # "old" \/ r.node # "same"), "C31_touched")
  \cup If(~r.links, "C31_link")
  \cup If(~r.mode, "C31_mode")
  \cup If(~r.others, "C31_other")
  \cup If(r.o = "fail" /\ ~r.said, "C31_silent")
  \cup If(w.cmd = "copy" /\ InDev(w.place) /\ r.o = "ok" /\ ~r.warned, "C31_warning")
  \cup If(r.o = "ok" /\ ~InDev(w.place) /\ r.warned, "C31_warning")
=============================================================================
