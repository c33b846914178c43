----------------------------- MODULE GenTuning -----------------------------
(* Environments of block device tuning (C18).                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
N == atoi(IOEnv.VP_N)
\* what goes wrong with a setting: operation and how often it was called before, an error or an interrupt
Faults == {<<"", 0, "">>} \cup {<<"missing", 0, "">>} \cup {<<o, n, k>> : o \in {"open"}, n \in 1..3, k \in {"EACCES", "EIO", "sigint"}}
          \cup {<<"read", n, k>> : n \in 1..1, k \in {"EIO", "sigint"}} \cup {<<"write", n, k>> : n \in 1..2, k \in {"EINVAL", "EBUSY", "sigint"}}
Ends == {"ok", "srcerr", "writeerr", "writeerr2", "syncerr", "checksum", "enospc", "sigread", "sigwrite", "sigsync", "short"}
Env == [ratio : {"1", "100", "37"}, sched : {"[none] mq-deadline kyber", "mq-deadline [kyber] none", "[mq-deadline] none", "none [bfq]", "[mq-deadline]", "none", "bfq [mq-deadline]", "kyber bfq [mq-deadline] x"},
        fr : Faults, fs : Faults, end : Ends, layout : {"disk", "part"}, cli : BOOLEAN, bmap : BOOLEAN]
\* at most one interrupt; an interrupt that needs a changed value needs one which changes
Sane(e) == /\ Cardinality({x \in {"r", "s", "e"} : CASE x = "r" -> e.fr[3] = "sigint" [] x = "s" -> e.fs[3] = "sigint" [] x = "e" -> e.end \in {"sigread", "sigwrite", "sigsync"}}) <= 1
           /\ (e.end \in {"checksum", "short"} => e.bmap) /\ (e.end = "enospc" => ~e.bmap /\ ~e.cli)
           /\ (e.end = "sigsync" => ~e.cli)
\* the most telling ones in full: one fault and each ending
Core == {e \in {[ratio |-> "100", sched |-> "mq-deadline [kyber] none", fr |-> x[1], fs |-> x[2], end |-> x[3], layout |-> "disk", cli |-> FALSE, bmap |-> TRUE] :
               x \in ({<<"", 0, "">>} \X Faults \X {"ok", "srcerr"}) \cup (Faults \X {<<"", 0, "">>} \X {"ok", "srcerr"}) \cup ({<<"", 0, "">>} \X {<<"", 0, "">>} \X Ends)} : Sane(e)}
Some == {e \in (IF N = 0 THEN Env ELSE RandomSubset(N, Env)) : Sane(e)}
\* lists which do not offer what is wanted
NoChoice == {[ratio |-> "100", sched |-> s, fr |-> <<"", 0, "">>, fs |-> <<"", 0, "">>, end |-> x, layout |-> "disk", cli |-> c, bmap |-> TRUE] : s \in {"[mq-deadline]", "bfq [mq-deadline]", "kyber bfq [mq-deadline] x", "[bfq] kyber"}, x \in {"ok", "srcerr"}, c \in BOOLEAN}
VARIABLE sc
Init == sc \in (Core \cup NoChoice \cup Some) /\ PrintT("SCENARIO " \o ToJson(sc))
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc
=============================================================================
