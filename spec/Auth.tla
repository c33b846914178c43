-------------------------------- MODULE Auth --------------------------------
(* Reading from a server that wants credentials, request by request, as the  *)
(* opener does it: a request without credentials, after 401 once more with   *)
(* those for the place asked for, redirects are followed.                    *)
EXTENDS AuthRules, TLC
CONSTANT BUG   \* "none", "always" (the header goes into every request), "anyhost" (answers every 401), "otherentry" (takes a foreign .netrc entry),
               \* "netrcfirst", "body401" (the answer is taken for the data)
Worlds == [url : {"none", "right", "wrong"}, rc : {"none", "right", "wrong"}, rcdef : {"none", "right"}, rcother : BOOLEAN, rcbad : BOOLEAN,
           ask : {"no", "basic", "deny", "digest"}, hop : {"no", "same", "other"}, askother : BOOLEAN]
VARIABLES w, at, tries, seenA, seenB, out
vars == <<w, at, tries, seenA, seenB, out>>
Creds == CASE BUG = "otherentry" /\ w.rcother /\ w.url = "none" -> "foreign"
           [] BUG = "netrcfirst" /\ w.rc # "none" -> w.rc
           [] OTHER -> Effective(w)
Init == w \in Worlds /\ at = "A" /\ tries = 0 /\ seenA = {} /\ seenB = {} /\ out = "run"
\* the header of the next request
Header == IF BUG = "always" THEN Creds
          ELSE IF tries = 0 THEN "none" ELSE IF at = "B" /\ BUG # "anyhost" THEN "none" ELSE Creds
Request == /\ out = "run" /\ Header # "stop"
           /\ LET c == Header
                  want == IF at = "B" THEN (IF w.askother THEN "basic" ELSE "no") ELSE w.ask
                  ok == want = "no" \/ (want = "basic" /\ c = "right")
              IN /\ seenA' = IF at \in {"A", "A2"} /\ c # "none" THEN seenA \cup {c} ELSE seenA
                 /\ seenB' = IF at = "B" /\ c # "none" THEN seenB \cup {c} ELSE seenB
                 /\ IF ok THEN IF at = "A" /\ w.hop # "no" THEN at' = (IF w.hop = "same" THEN "A2" ELSE "B") /\ tries' = 0 /\ out' = out
                               ELSE at' = at /\ tries' = tries /\ out' = "data"
                    ELSE /\ at' = at
                         /\ IF tries = 0 /\ want = "basic" /\ Creds # "none" /\ (at # "B" \/ BUG = "anyhost") THEN tries' = 1 /\ out' = out
                            ELSE tries' = tries /\ out' = IF BUG = "body401" THEN "data" ELSE "refused"
           /\ UNCHANGED w
Spec == Init /\ [][Request]_vars /\ WF_vars(Request)
Leak == seenB = {}
Own == seenA \subseteq OwnMay(w)
Right == /\ out = "data" => ~MustFail(w)
         /\ out = "refused" => ~MustOk(w)
Ends == <>(out # "run")
=============================================================================
