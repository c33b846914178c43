----------------------------- MODULE OfferTrace -----------------------------
(* Many (damaged, partial, unsupported, ...) bmap files offered to the copy. *)
(* offer: o outcome, y class of the failure, w whether anything was written, *)
(* must "refuse" | "accept" | "any", early: nothing may be written, doc: the *)
(* failure has to be the documented error                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
OfferViol(P, f) ==
       If(f.must = "refuse" /\ f.o = "ok", P \o "_accepted")
  \cup If(f.must = "refuse" /\ f.early /\ f.w, P \o "_written")
  \cup If(f.must = "refuse" /\ f.doc /\ f.o = "fail" /\ f.y = "internal", P \o "_internal")
  \cup If(f.must = "accept" /\ f.o # "ok", P \o "_refused")
  \cup If(f.o = "hang", P \o "_hang")
Viol(T) == UNION {OfferViol(T.prop, T.offers[i]) : i \in 1..Len(T.offers)}
Bad(T) == {i \in 1..Len(T.offers) : OfferViol(T.prop, T.offers[i]) # {}}
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), bad |-> Bad(Traces[t]), hit |-> {}]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
