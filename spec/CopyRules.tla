----------------------------- MODULE CopyRules -----------------------------
(* What `bmaptool copy` may do with its arguments (C16 C17 C21), as a        *)
(* declarative rule. A world w:                                              *)
(*  n       number of extensions of the image name; ex: the candidates that  *)
(*          exist: k stands for IMAGE cut down to k extensions + ".bmap"     *)
(*  bm      --bmap: "none" | "given" | "missing" | "image" (the image again) *)
(*  nobmap, nosig, quiet, debug : the options                                *)
(*  so      --bmap-sig: "none" | "missing" | kind of signature               *)
(*  asc, sg IMAGE.bmap.asc and .sig of the bmap: "none" | kind               *)
(*  emb     signature embedded in the bmap: "no" | kind                      *)
(*  img     "ok" | "missing"                                                 *)
(*  alt     the server gives something else when it is asked once more       *)
(*  ver     the means to verify: "ok" | "none" (there are none) | "nokeys"   *)
(*          (no key is known)                                                *)
(*  alias   the destination is the same file as: "no" | "image" | "bmap" |   *)
(*          "opt" | "asc" | "sig" (through whatever name)                    *)
(* Kinds of signatures: of exactly these contents by a trusted key / not /   *)
(* neither clearly (a signed message instead of a detached signature ...)    *)
EXTENDS Integers, Sequences, FiniteSets
Good == {"good", "goodasc", "two", "sub"}
Bad == {"wrong", "wrongasc", "expired", "sigexpired", "revoked", "untrusted", "unknown", "unknowntwo", "g+untrusted", "untrusted+g", "g+unknown", "unknown+g", "g+expired", "expired+g", "g+revoked", "revoked+g", "altered", "inlineother", "clearother", "inlineempty", "clearempty", "store", "storeother",
        "garbage", "empty", "mix1", "mix2", "badasc"}
Odd == {"inlinesame", "clearsame", "mix3", "mix4"}
EmbGood == {"good", "two"}
EmbBad == {"g+untrusted", "untrusted+g", "g+unknown", "unknown+g", "revoked+g", "unknown", "altered", "alteredsig", "expired", "revoked", "untrusted", "cut", "marker", "nosig"}
EmbOdd == {"trail", "lead", "leadbmap", "twice"}
\* whether the tool may go on with a signature of this kind
Verdict(k) == IF k \in Good THEN "yes" ELSE IF k \in Odd THEN "any" ELSE "no"
EmbVerdict(k) == IF k \in EmbGood THEN "yes" ELSE IF k \in EmbOdd THEN "any" ELSE "no"

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Refuse == -1
All == 0
Given == 100
\* the bmap chosen: Given, 1 + k for candidate k, All: none
Choice(w) == IF w.nobmap THEN All ELSE IF w.bm = "given" THEN Given ELSE IF w.ex = {} THEN All ELSE 1 + Max(w.ex)
Means(w) == IF w.nosig THEN (IF w.emb = "no" THEN "yes" ELSE IF w.ver = "none" THEN "any" ELSE IF w.emb \in EmbGood THEN "yes" ELSE "any")
            ELSE IF w.so = "none" /\ w.emb = "no" /\ w.asc = "none" /\ w.sg = "none" THEN "yes" ELSE "no"
Signed(w) == IF w.ver # "ok" THEN Means(w)
             ELSE IF w.nosig THEN (IF w.emb \in EmbGood \cup {"no"} THEN "yes" ELSE "any")
             ELSE IF w.so # "none" THEN (IF w.emb = "no" THEN Verdict(w.so) ELSE IF Verdict(w.so) = "no" \/ EmbVerdict(w.emb) = "no" THEN "no" ELSE "any")
             ELSE IF w.emb # "no" THEN (IF EmbVerdict(w.emb) = "no" THEN "no" ELSE IF {w.asc, w.sg} = {"none"} THEN EmbVerdict(w.emb) ELSE "any")
             ELSE IF w.asc # "none" THEN (IF Verdict(w.asc) = "yes" /\ w.sg \notin Good \cup {"none"} THEN "any" ELSE Verdict(w.asc))
             ELSE IF w.sg # "none" THEN Verdict(w.sg)
             ELSE "yes"
Contradiction(w) == (w.nobmap /\ w.bm # "none") \/ (w.so # "none" /\ w.nosig) \/ (w.quiet /\ w.debug)
\* the destination is one of the files that are read (definitely), or may be taken for one
Reads(w) == {"image"} \cup (IF Choice(w) # All THEN {"bmap"} ELSE {}) \cup (IF w.so \notin {"none", "missing"} THEN {"opt"} ELSE {})
            \cup (IF Choice(w) # All /\ w.so = "none" /\ ~w.nosig /\ w.emb = "no"
                  THEN (IF w.asc # "none" THEN {"asc"} ELSE IF w.sg # "none" THEN {"sig"} ELSE {}) ELSE {})
MayRead(w) == Reads(w) \cup (IF Choice(w) # All THEN {"asc", "sig"} ELSE {"bmap", "asc", "sig"})
Allowed(w) ==
   IF Contradiction(w) \/ w.img = "missing" \/ w.bm \in {"missing", "image"} THEN {Refuse}
   ELSE IF w.alias \in Reads(w) THEN {Refuse}
   ELSE IF w.so # "none" /\ (Choice(w) = All \/ w.so = "missing") THEN {Refuse}
   ELSE IF Choice(w) = All /\ ~w.nobmap THEN {Refuse}
   ELSE IF Choice(w) # All /\ Signed(w) = "no" THEN {Refuse}
   ELSE {Choice(w)} \cup (IF (Choice(w) # All /\ Signed(w) = "any") \/ w.alt \/ w.alias \in MayRead(w) THEN {Refuse} ELSE {})

\* What the user is told (C29). The keys which have validly made a signature of the kind for these contents, and those of
\* other signatures in it
Valid(k) == IF k \in {"two"} THEN {"good", "other"} ELSE IF k = "sub" THEN {"sub"}
            ELSE IF k \in Good \cup Odd \cup {"unknowntwo", "g+untrusted", "untrusted+g", "g+unknown", "unknown+g", "g+expired", "expired+g", "g+revoked", "revoked+g", "mix1", "mix2"} THEN {"good"} ELSE {}
Invalid(k) == CASE k \in {"g+untrusted", "untrusted+g", "untrusted"} -> {"untrusted"} [] k \in {"unknown", "unknowntwo", "g+unknown", "unknown+g"} -> {"unknown"}
                [] k \in {"expired", "g+expired", "expired+g"} -> {"expired"} [] k \in {"revoked", "g+revoked", "revoked+g"} -> {"revoked"}
                [] k \in {"sigexpired", "wrong", "wrongasc", "altered", "badasc", "mix1", "mix2", "mix3", "mix4", "inlineother", "clearother", "inlineempty", "clearempty"} -> {"good"} [] OTHER -> {}
EmbValid(k) == IF k = "two" THEN {"good", "other"} ELSE IF k \in {"good", "trail", "lead", "leadbmap", "twice", "g+untrusted", "untrusted+g", "g+unknown", "unknown+g", "revoked+g"} THEN {"good"} ELSE {}
EmbInvalid(k) == CASE k \in {"g+untrusted", "untrusted+g", "untrusted"} -> {"untrusted"} [] k \in {"unknown", "g+unknown", "unknown+g", "twice"} -> {"unknown"}
                   [] k \in {"expired", "revoked"} -> {k} [] k = "revoked+g" -> {"revoked"} [] k \in {"altered", "alteredsig"} -> {"good"} [] OTHER -> {}
IfSaid(c, n) == IF c THEN {n} ELSE {}
\* the signature that decides, if that is clear
Decides(w) == IF Choice(w) = All \/ w.nosig THEN "none" ELSE IF w.emb # "no" THEN "emb" ELSE IF w.so # "none" THEN "so" ELSE IF w.asc # "none" THEN "asc" ELSE IF w.sg # "none" THEN "sig" ELSE "none"
Kind(w, x) == CASE x = "emb" -> w.emb [] x = "so" -> w.so [] x = "asc" -> w.asc [] x = "sig" -> w.sg
Present(w) == IF w.nosig \/ Choice(w) = All THEN {} ELSE {x \in {"emb", "so", "asc", "sig"} : Kind(w, x) \notin {"none", "no", "missing"}}
Signers(w, V(_), E(_)) == UNION {IF x = "emb" THEN E(w.emb) ELSE V(Kind(w, x)) : x \in Present(w)}
\* s: found, figures (sequences of bmaps), sig (of "asc" "sig"), verified, failed (keys), whole, sync, done, error
\* statements which are wrong
SaidFalse(w, s) ==
       IfSaid(\E i \in 1..Len(s.found) : s.found[i] # Choice(w) \/ w.bm # "none" \/ w.nobmap, "found")
  \cup IfSaid(\E i \in 1..Len(s.sig) : s.sig[i] \notin {"asc", "sig"} \cap Present(w) \/ w.so # "none" \/ w.emb # "no", "sig")
  \cup IfSaid(~(s.verified \subseteq (IF w.ver = "ok" THEN Signers(w, Valid, EmbValid) ELSE {})), "verified")
  \cup IfSaid(~(s.failed \subseteq (Signers(w, Invalid, EmbInvalid) \cup (IF w.ver = "nokeys" THEN Signers(w, Valid, EmbValid) ELSE {}))), "failed")
  \cup IfSaid(\E i \in 1..Len(s.figures) : s.figures[i] # Choice(w) \/ w.nobmap, "figures")
  \cup IfSaid(s.whole /\ ~w.nobmap, "whole")
\* statements which are missing or contradict the end (o: "ok" | "fail") and the bmap used, u
SaidNot(w, o, u, s) ==
       IfSaid(s.error # (o = "fail"), "error")
  \cup IfSaid(s.done /\ o = "fail", "done")
  \cup (IF o # "ok" \/ w.quiet THEN {}
        ELSE IfSaid(~s.done \/ ~s.sync, "completion")
        \cup IfSaid(s.whole # (u = All), "whole")
        \cup IfSaid(s.figures # (IF u = All THEN <<>> ELSE <<u>>), "figures")
        \cup IfSaid(s.found # (IF w.bm = "none" /\ u # All THEN <<u>> ELSE <<>>), "found")
        \cup IfSaid(s.sig # (IF Decides(w) \in {"asc", "sig"} THEN <<Decides(w)>> ELSE <<>>) /\ Signed(w) = "yes", "sig")
        \cup IfSaid(Signed(w) = "yes" /\ s.verified # (CASE Decides(w) = "none" -> {} [] Decides(w) = "emb" -> EmbValid(w.emb) [] OTHER -> Valid(Kind(w, Decides(w)))), "verified"))
  \cup IfSaid(w.quiet /\ (s.done \/ s.sync \/ s.whole \/ s.figures # <<>> \/ s.found # <<>> \/ s.sig # <<>> \/ s.verified # {}), "quiet")
=============================================================================
