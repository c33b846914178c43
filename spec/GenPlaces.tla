----------------------------- MODULE GenPlaces -----------------------------
(* Worlds for C31, K of them for every command and place.                    *)
EXTENDS PlacesRules, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
K == atoi(IOEnv.VP_N)
D(c, p) == [cmd : {c}, place : {p}, bad : {"no", "sum", "cut"}, map : BOOLEAN, verify : BOOLEAN, comp : {"plain", "gz", "xz", "zst", "tar.gz", "zip"},
            name : 0..11, rel : BOOLEAN, given : BOOLEAN, lasthole : BOOLEAN, quiet : BOOLEAN]
OK(x) == /\ (x.cmd = "create" => x.bad = "no" /\ x.map /\ x.verify /\ x.comp = "plain" /\ ~x.given)
         /\ (~x.map => x.bad = "no" /\ ~x.given)
         /\ (x.cmd = "create" => x.place \notin {"devnew", "devfile"})
         /\ (x.bad # "no" => x.place \in Files \cup News)
Pick(S) == IF Cardinality(S) <= K THEN S ELSE RandomSubset(K, S)
Family == UNION {Pick({x \in D(c, p) : OK(x)}) : c \in {"copy", "create"}, p \in Kinds}
VARIABLE sc
Init == sc \in Family /\ PrintT("SCENARIO " \o ToJson(sc))
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc
=============================================================================
