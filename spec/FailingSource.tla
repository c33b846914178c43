--------------------------- MODULE FailingSource ---------------------------
(* A failing source (C15): server or remote command -> reader thread ->      *)
(* decompressor -> the reader -> copy without a bmap. Every stage may stop   *)
(* early, with or without an error. The compressed form of cell i is unit i; *)
(* the decompressor may need all N units or stop before the last one         *)
(* (archives have a tail nobody needs).                                      *)
EXTENDS Integers, TLC
CONSTANTS BUG, N, PIPE
VARIABLES local, comp, tail, sent, srcend, thr, fed, dec, eaten, out, decrc, got, outcome, announced
vars == <<local, comp, tail, sent, srcend, thr, fed, dec, eaten, out, decrc, got, outcome, announced>>
\* srcend: "run" | "eof" | "error" (error visible to whoever reads) ; announced: the length is announced
\* thr: reader thread "none" | "run" | "ok" | "error" | "broken" ; dec: decompressor "none" | "run" | "done"
Init == /\ local \in BOOLEAN /\ comp \in BOOLEAN /\ tail \in IF comp THEN {0, 1} ELSE {0}
        /\ sent = 0 /\ srcend = "run" /\ thr = (IF ~local /\ comp THEN "run" ELSE "none") /\ fed = 0
        /\ dec = (IF comp THEN "run" ELSE "none") /\ eaten = 0 /\ out = 0 /\ decrc = 0 /\ got = 0 /\ outcome = "" /\ announced \in BOOLEAN
Total == N + tail
\* the source: a local file ends where it ends, a connection may break off or report an error
SrcSend == srcend = "run" /\ sent < Total /\ sent' = sent + 1 /\ UNCHANGED <<local, comp, tail, srcend, thr, fed, dec, eaten, out, decrc, got, outcome, announced>>
SrcEnd == /\ srcend = "run"
          /\ \/ srcend' = "eof" /\ (sent = Total \/ local \/ announced)   \* breaking off silently is noticeable only with an announced length
             \/ srcend' = "error" /\ ~local
          /\ UNCHANGED <<local, comp, tail, sent, thr, fed, dec, eaten, out, decrc, got, outcome, announced>>
\* the reader thread feeds the decompressor through a pipe
ThrMove == thr = "run" /\ fed < sent /\ (fed - eaten) < PIPE /\ dec = "run" /\ fed' = fed + 1
           /\ UNCHANGED <<local, comp, tail, sent, srcend, thr, dec, eaten, out, decrc, got, outcome, announced>>
ThrBroken == thr = "run" /\ dec = "done" /\ (fed < sent) /\ thr' = "broken"
             /\ UNCHANGED <<local, comp, tail, sent, srcend, fed, dec, eaten, out, decrc, got, outcome, announced>>
ThrEnd == thr = "run" /\ fed = sent /\ srcend # "run" /\ thr' = (IF srcend = "error" THEN "error" ELSE "ok")
          /\ UNCHANGED <<local, comp, tail, sent, srcend, fed, dec, eaten, out, decrc, got, outcome, announced>>
\* the decompressor
Input == IF local THEN sent ELSE fed
InputEnd == IF local THEN srcend # "run" ELSE thr \in {"ok", "error", "broken"}
DecStep == dec = "run" /\ eaten < Input /\ eaten' = eaten + 1 /\ (out - got) < PIPE /\ out' = (IF eaten < N THEN out + 1 ELSE out)
           /\ UNCHANGED <<local, comp, tail, sent, srcend, thr, fed, dec, decrc, got, outcome, announced>>
DecEnd == /\ dec = "run"
          /\ \/ eaten >= N /\ decrc' = 0                                    \* it has all it needs
             \/ eaten = Input /\ InputEnd /\ eaten < N /\ decrc' = 1        \* the input ends too early
             \/ decrc' = 1                                                  \* damaged data, or it is killed
          /\ dec' = "done" /\ UNCHANGED <<local, comp, tail, sent, srcend, thr, fed, eaten, out, got, outcome, announced>>
\* the reader copies until there is no more data, then it looks why
CopyMove == outcome = "" /\ got < (IF comp THEN out ELSE sent) /\ got' = got + 1
            /\ UNCHANGED <<local, comp, tail, sent, srcend, thr, fed, dec, eaten, out, decrc, outcome, announced>>
AtEof == IF comp THEN dec = "done" /\ got = out ELSE srcend # "run" /\ got = sent
CopyEnd ==
  /\ outcome = "" /\ AtEof
  /\ (thr = "none" \/ thr # "run" \/ BUG = "nojoin")                        \* join
  /\ outcome' =
       IF BUG = "old" THEN (IF ~comp /\ srcend = "error" THEN "fail" ELSE "ok")
       ELSE IF thr = "error" /\ BUG # "thread" THEN "fail"
       ELSE IF comp /\ decrc # 0 /\ BUG # "status" THEN "fail"
       ELSE IF ~local /\ announced /\ sent < Total /\ thr # "broken" /\ BUG # "length" THEN "fail"
       ELSE IF ~comp /\ srcend = "error" THEN "fail"
       ELSE "ok"
  /\ UNCHANGED <<local, comp, tail, sent, srcend, thr, fed, dec, eaten, out, decrc, got, announced>>
Next == SrcSend \/ SrcEnd \/ ThrMove \/ ThrBroken \/ ThrEnd \/ DecStep \/ DecEnd \/ CopyMove \/ CopyEnd \/ (outcome # "" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(SrcSend \/ SrcEnd) /\ WF_vars(ThrMove \/ ThrBroken \/ ThrEnd) /\ WF_vars(DecStep) /\ WF_vars(DecEnd) /\ WF_vars(CopyMove \/ CopyEnd)

\* a local uncompressed file has a known size, which the copy checks
Truthful == (outcome = "ok" /\ (comp \/ ~local)) => got = N
\* a source that delivered everything without a failure is accepted
Fair == (outcome = "fail") => (srcend = "error" \/ decrc # 0 \/ sent < Total)
Ends == <>(outcome # "")
=============================================================================
