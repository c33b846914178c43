------------------------------ MODULE GenAuth -------------------------------
(* Worlds of AuthRules and how they are realised (C27): directly, by address *)
(* or name, or through a proxy, so that hosts may have any name and port.    *)
EXTENDS AuthRules, Sequences, TLC, Json, IOUtils, Randomization
N == atoi(IOEnv.VP_N)
D == [url : {"none", "right", "wrong", "user"}, rc : {"none", "right", "wrong"}, rcdef : {"none", "right", "wrong"}, rcother : BOOLEAN, rcbad : BOOLEAN,
      ask : {"no", "basic", "basic ", "deny", "digest"}, hop : {"no", "same", "other"}, askother : BOOLEAN,
      what : {"image", "bmap", "sidecar"}, comp : {"plain", "gz"}, spell : 0..2, others : {"one", "many"},
      net : {"ip", "name", "name", "proxied", "proxied-port", "proxied6", "proxied6-port"}]
Fix(x) == [x EXCEPT !.ask = IF x.ask = "basic " THEN "basic" ELSE x.ask]
OK(x) == /\ (x.rcbad => RandomElement(1..4) = 1)
         /\ (x.askother => x.hop = "other")
         /\ (x.url = "user" => RandomElement(1..3) = 1)
S == {Fix(x) : x \in {y \in RandomSubset(6 * N, D) : OK(y)}}
VARIABLE sc
Init == sc \in (IF Cardinality(S) <= N THEN S ELSE RandomSubset(N, S)) /\ PrintT("SCENARIO " \o ToJson(sc))
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc
=============================================================================
