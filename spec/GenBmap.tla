------------------------------- MODULE GenBmap -------------------------------
(* Files of the BmapFile model with the demands of the property on them.     *)
EXTENDS BmapFile, Json, IOUtils, Randomization
N == atoi(IOEnv.VP_N)
Sample(D) == IF N = 0 \/ N >= Cardinality(D) THEN D ELSE RandomSubset(N, D)
All == UNION {{[why |-> "intact", w |-> "intact", o |-> g, x |-> g]} \cup {[why |-> "damaged", w |-> d.w, o |-> g, x |-> d.x] : d \in Changed(g)}
              \cup {[why |-> "forged", w |-> d.w, o |-> g, x |-> d.x] : d \in Forged(g)} : g \in Good}
VARIABLE sc
GInit == /\ sc \in Sample(All)
         /\ PrintT("SCENARIO " \o ToJson([why |-> sc.why, w |-> sc.w, o |-> sc.o, x |-> sc.x, must |-> Must(sc.why, sc.o, sc.x),
                                         early |-> MustEarly(sc.why, sc.o, sc.x), doc |-> MustDoc(sc.x)]))
         /\ pc = "" /\ out = "" /\ cls = "" /\ written = FALSE /\ next = 0 /\ f = "" /\ orig = "" /\ why = ""
GSpec == GInit /\ [][UNCHANGED <<vars, sc>>]_<<vars, sc>>
=============================================================================
