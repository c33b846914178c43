----------------------------- MODULE AuthRules ------------------------------
(* Who may learn which credentials, and when they have to lead to the data.  *)
(* A world: url, rc, rcdef: the credentials in the URL ("none" | "right" |   *)
(* "wrong" | "user": a name without password), those of ~/.netrc for the     *)
(* host and its default entry ("none" | "right" | "wrong"), rcother (an      *)
(* entry for another host); rcbad (~/.netrc cannot be parsed); ask: what the *)
(* server wants ("no" | "basic" | "deny" | "digest"); hop: "no" | "same" (it *)
(* redirects to a path below) | "other" (to another host), askother: that    *)
(* host wants credentials, too.                                              *)
EXTENDS Integers, FiniteSets
Effective(w) == IF w.url \in {"right", "wrong"} THEN w.url
                ELSE IF w.url = "user" THEN "odd"
                ELSE IF w.rcbad THEN "none"
                ELSE IF w.rc # "none" THEN w.rc ELSE w.rcdef
Passes(w) == w.ask = "no" \/ (w.ask = "basic" /\ Effective(w) = "right")
Reach(w) == Passes(w) /\ ~(w.hop = "other" /\ w.askother)
MustOk(w) == Reach(w) /\ Effective(w) # "odd"
MustFail(w) == ~Reach(w) /\ Effective(w) # "odd"
\* which credentials the server itself may see
OwnMay(w) == {Effective(w)} \ {"none"}
=============================================================================
