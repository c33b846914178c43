---------------------------- MODULE PlacesTrace ----------------------------
(* Recorded runs, judged with the rules of the model (PlacesRules).          *)
EXTENDS PlacesRules, Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t].w, Traces[t].r),
                                         hit |-> {Traces[t].w.cmd \o "_" \o Traces[t].w.place \o "_" \o Traces[t].r.o}]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
