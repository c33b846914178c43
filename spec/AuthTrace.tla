----------------------------- MODULE AuthTrace ------------------------------
(* Recorded exchanges against AuthRules. T: w (the world), o (ok | fail |    *)
(* hang), exact (the destination is the image), own, other: the credentials  *)
(* the server and the other host have seen                                   *)
EXTENDS AuthRules, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
Set(q) == {q[i] : i \in 1..Len(q)}
Viol(T) == LET w == T.w IN
       If(T.o = "ok" /\ ~T.exact, "C27_data")
  \cup If(T.o = "ok" /\ MustFail(w), "C27_accepted")
  \cup If(T.o = "ok" /\ T.what = "sidecar" /\ ~T.used, "C27_unused")
  \cup If(T.o = "fail" /\ MustOk(w), "C27_refused")
  \cup If(T.o = "hang", "C27_hang")
  \cup If(Set(T.other) # {}, "C27_leak")
  \cup If(~(Set(T.own) \subseteq OwnMay(w)), "C27_own")
Hit(T) == {T.what \o "_" \o T.o} \cup If(Set(T.own) # {}, "sent") \cup If(T.w.hop = "other" /\ T.o = "ok", "redirected") \cup If(T.w.rcother, "foreign")
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> Hit(Traces[t])]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
