---------------------------- MODULE CopyCommand ----------------------------
(* The copy command from its arguments to its end as a sequence of steps, in *)
(* the order of the implementation (C16 C17 C19 C21 C29): which files are    *)
(* opened, truncated and written, which bmap is used for writing, and what   *)
(* the user is told.                                                         *)
EXTENDS CopyRules, TLC
CONSTANTS BUG, Part, MaxN
Sigs == {"none", "good", "wrong", "mix3"}
Base == [n |-> 0, ex |-> {0}, bm |-> "none", nobmap |-> FALSE, nosig |-> FALSE, quiet |-> FALSE, debug |-> FALSE, so |-> "none",
         asc |-> "none", sg |-> "none", emb |-> "no", img |-> "ok", alias |-> "no", alt |-> FALSE, ver |-> "ok"]
Choosing == {[Base EXCEPT !.n = n, !.ex = ex, !.bm = bm, !.nobmap = nb, !.nosig = ns, !.quiet = q, !.debug = d, !.so = so, !.img = im] :
             n \in 0..MaxN, ex \in SUBSET (0..MaxN), bm \in {"none", "given", "missing", "image"}, nb \in BOOLEAN, ns \in BOOLEAN, q \in BOOLEAN, d \in BOOLEAN,
             so \in {"none", "missing", "good"}, im \in {"ok", "missing"}}
Signing == {[Base EXCEPT !.bm = bm, !.nosig = ns, !.so = so, !.asc = a, !.sg = s, !.emb = e, !.alias = al, !.ver = v] :
            bm \in {"none", "given"}, ns \in BOOLEAN, so \in Sigs, a \in Sigs, s \in Sigs, e \in {"no", "good", "altered", "trail"},
            al \in {"no", "image", "bmap", "opt", "asc", "sig"}, v \in {"ok", "none", "nokeys"}}
Worlds == IF Part = "choice" THEN {w \in Choosing : w.ex \subseteq 0..w.n} ELSE Signing

\* dest: what happened to the destination: "old" | "empty" | "part" | "data"; busy: the destination is a device that is in use
\* fails: how the copy goes wrong: "no" | "copy" | "sync"; said: what the user has been told (verified, failed: the keys)
VARIABLES w, dev, busy, fails, pc, k, use, sig, dest, excl, outcome, said
vars == <<w, dev, busy, fails, pc, k, use, sig, dest, excl, outcome, said>>
Nothing == [found |-> -1, sig |-> "none", verified |-> {}, failed |-> {}, figures |-> -1, whole |-> FALSE, sync |-> FALSE, done |-> FALSE, error |-> FALSE]
\* information is not given with --quiet, errors are
Tell(f, v) == said' = (IF w.quiet /\ BUG # "noisy" THEN said ELSE [said EXCEPT ![f] = v])
Mute == UNCHANGED said
Init == /\ w \in Worlds /\ dev \in BOOLEAN /\ busy \in (IF dev THEN BOOLEAN ELSE {FALSE}) /\ (dev => w.alias = "no")
        /\ fails \in {"no", "copy", "sync"} /\ said = Nothing
        /\ pc = "options" /\ k = w.n /\ use = All /\ sig = "none" /\ dest = "old" /\ excl = FALSE /\ outcome = "run"
Stop == outcome' = "refused" /\ pc' = "end" /\ said' = (IF BUG = "silent" /\ pc = "have" THEN said ELSE [said EXCEPT !.error = TRUE])
Step(x) == pc' = x /\ UNCHANGED outcome
Go(x) == Step(x) /\ Mute
Options == /\ pc = "options"
           /\ IF (w.quiet /\ w.debug) \/ (w.nobmap /\ w.bm # "none" /\ BUG # "both") \/ (w.so # "none" /\ w.nosig) THEN Stop ELSE Go("image")
           /\ UNCHANGED <<w, dev, busy, fails, k, use, sig, dest, excl>>
Image == /\ pc = "image" /\ (IF w.img = "missing" THEN Stop ELSE Go("bmap"))
         /\ UNCHANGED <<w, dev, busy, fails, k, use, sig, dest, excl>>
Bmap == /\ pc = "bmap"
        /\ CASE w.nobmap -> Go("check") /\ UNCHANGED <<k, use>>
             [] ~w.nobmap /\ w.bm = "missing" /\ BUG # "fallback" -> Stop /\ UNCHANGED <<k, use>>
             [] ~w.nobmap /\ w.bm = "image" -> (IF BUG = "same" THEN use' = Given /\ Go("check") ELSE Stop /\ UNCHANGED use) /\ UNCHANGED k
             [] ~w.nobmap /\ w.bm = "given" -> use' = Given /\ Go("check") /\ UNCHANGED k
             [] OTHER -> IF k \in w.ex THEN use' = 1 + k /\ Step("check") /\ Tell("found", IF BUG = "firstname" THEN 1 + w.n ELSE 1 + k) /\ UNCHANGED k
                         ELSE IF k = 0 \/ BUG = "nostrip" THEN Go("check") /\ UNCHANGED <<k, use>>
                         ELSE k' = k - (IF BUG = "two" /\ k > 1 THEN 2 ELSE 1) /\ Mute /\ UNCHANGED <<use, pc, outcome>>
        /\ UNCHANGED <<w, dev, busy, fails, sig, dest, excl>>
\* the destination is compared with everything that may have to be read
Check == /\ pc = "check"
         /\ IF /\ BUG # "nocheck"
               /\ \/ w.alias = "image"
                  \/ use # All /\ w.alias = "bmap"
                  \/ w.so # "none" /\ w.alias = "opt"
                  \/ use # All /\ w.so = "none" /\ ~w.nosig /\ BUG # "nosibling" /\ ((w.alias = "asc" /\ w.asc # "none") \/ (w.alias = "sig" /\ w.sg # "none"))
            THEN Stop ELSE Go("dest")
         /\ UNCHANGED <<w, dev, busy, fails, k, use, sig, dest, excl>>
Dest == /\ pc = "dest"
        /\ dest' = (IF dev THEN dest ELSE "empty") /\ excl' = (dev /\ BUG # "shared")
        /\ IF dev /\ busy /\ BUG # "shared" THEN Stop ELSE Go("nosig")
        /\ UNCHANGED <<w, dev, busy, fails, k, use, sig>>
NoSig == /\ pc = "nosig" /\ (IF w.so # "none" /\ use = All /\ BUG # "lonely" THEN Stop ELSE Go("sig"))
         /\ UNCHANGED <<w, dev, busy, fails, k, use, sig, dest, excl>>
\* which signature decides: the embedded one, the one given, .asc, .sig
Find == /\ pc = "sig"
        /\ IF use = All THEN Go("have") /\ UNCHANGED sig
           ELSE IF w.emb # "no" THEN /\ sig' = w.emb /\ (IF w.so # "none" /\ BUG # "embopt" THEN Stop ELSE Go("verifyemb"))
           ELSE IF w.nosig THEN Go("have") /\ UNCHANGED sig
           ELSE IF w.so = "missing" THEN (IF BUG = "sigopen" THEN Go("have") ELSE Stop) /\ UNCHANGED sig
           ELSE /\ sig' = (IF w.so # "none" /\ BUG # "discover" THEN w.so ELSE IF w.asc # "none" /\ BUG # "sigfirst" THEN w.asc ELSE IF w.sg # "none" THEN w.sg ELSE IF BUG = "sigfirst" THEN w.asc ELSE "none")
                /\ Step("verify")
                /\ IF w.so # "none" /\ BUG # "discover" THEN Mute ELSE Tell("sig", IF w.asc # "none" /\ BUG # "othersig" THEN "asc" ELSE IF w.sg # "none" THEN "sig" ELSE "none")
        /\ UNCHANGED <<w, dev, busy, fails, k, use, dest, excl>>
\* each of the signers is reported, as long as nothing is wrong
Verify == /\ pc \in {"verify", "verifyemb"}
          /\ LET means == w.ver = "ok" \/ sig = "none" \/ (w.nosig /\ w.ver = "nokeys") \/ (BUG = "optional" /\ w.ver = "none") \/ (BUG = "anykey" /\ w.ver = "nokeys")
                 v == IF sig = "none" THEN "yes" ELSE IF ~means THEN "no" ELSE IF pc = "verify" THEN Verdict(sig) ELSE EmbVerdict(sig)
                 signers == IF sig = "none" THEN {} ELSE IF pc = "verify" THEN Valid(sig) ELSE EmbValid(sig)
                 ignored == (w.nosig /\ w.ver # "none") \/ (BUG = "warn" /\ sig = "wrong") \/ (BUG = "embwarn" /\ pc = "verifyemb")
             IN \/ v # "no" /\ Step("have") /\ (IF w.nosig THEN Mute ELSE Tell("verified", IF BUG = "forget" THEN {} ELSE signers))
                \/ v = "no" /\ ignored /\ Go("have")
                \/ /\ v = "any" \/ (v = "no" /\ ~ignored)
                   /\ outcome' = "refused" /\ pc' = "end"
                   /\ \E S \in SUBSET (IF BUG = "early" THEN {"good"} ELSE IF w.nosig \/ ~means THEN {} ELSE signers),
                         F \in SUBSET (IF w.ver = "none" THEN {} ELSE (IF pc = "verify" THEN Invalid(sig) ELSE EmbInvalid(sig)) \cup (IF w.ver = "nokeys" /\ ~w.nosig THEN signers ELSE {})) :
                        said' = [said EXCEPT !.error = TRUE, !.failed = F, !.verified = IF w.quiet THEN @ ELSE S]
          /\ UNCHANGED <<w, dev, busy, fails, k, use, sig, dest, excl>>
Have == /\ pc = "have" /\ (IF use = All /\ ~w.nobmap /\ BUG # "implicit" THEN Stop ELSE Go("tell"))
        /\ UNCHANGED <<w, dev, busy, fails, k, use, sig, dest, excl>>
Announce == /\ pc = "tell" /\ Step("copy")
            /\ IF use = All THEN Tell("whole", TRUE) ELSE Tell("figures", IF BUG = "figures" /\ w.bm = "none" THEN 1 + w.n ELSE use)
            /\ UNCHANGED <<w, dev, busy, fails, k, use, sig, dest, excl>>
Fail == /\ outcome' = "failed" /\ pc' = "end" /\ said' = [said EXCEPT !.error = TRUE]
Copy == /\ pc = "copy"
        /\ IF fails = "copy" THEN Fail /\ dest' = "part" ELSE Go("copied") /\ dest' = "data"
        /\ UNCHANGED <<w, dev, busy, fails, k, use, sig, excl>>
Copied == /\ pc = "copied" /\ Step("sync") /\ Tell(IF BUG = "nosync" THEN "done" ELSE "sync", TRUE)
          /\ UNCHANGED <<w, dev, busy, fails, k, use, sig, dest, excl>>
Sync == /\ pc = "sync"
        /\ IF fails = "sync" THEN Fail ELSE outcome' = "copied" /\ pc' = "end" /\ Tell("done", TRUE)
        /\ UNCHANGED <<w, dev, busy, fails, k, use, sig, dest, excl>>
Next == Options \/ Image \/ Bmap \/ Check \/ Dest \/ NoSig \/ Find \/ Verify \/ Have \/ Announce \/ Copy \/ Copied \/ Sync \/ (pc = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the steps arrive at what the rules allow
Conforms == /\ outcome = "copied" => use \in Allowed(w)
            /\ outcome = "refused" => Refuse \in Allowed(w) \/ busy
NoData == outcome = "refused" => dest \notin {"part", "data"}
Inputs == (w.alias \in Reads(w)) => dest = "old"
Exclusive == (dest \in {"part", "data"} /\ dev) => excl /\ ~busy
BusyUntouched == busy => dest = "old"
\* what has been said is true, and at the end nothing is missing
Out == [found |-> IF said.found = -1 THEN <<>> ELSE <<said.found>>, sig |-> IF said.sig = "none" THEN <<>> ELSE <<said.sig>>, verified |-> said.verified, failed |-> said.failed,
        figures |-> IF said.figures = -1 THEN <<>> ELSE <<said.figures>>, whole |-> said.whole, sync |-> said.sync, done |-> said.done, error |-> said.error]
True == SaidFalse(w, Out) = {} /\ (dest = "old" \/ dest = "empty" => ~said.sync /\ ~said.done) /\ (outcome \in {"refused", "failed"} => ~said.done)
Complete == pc = "end" => SaidNot(w, IF outcome = "copied" THEN "ok" ELSE "fail", use, Out) = {}
Ends == <>(pc = "end")
=============================================================================
