----------------------------- MODULE BdevTuning -----------------------------
(* Tuning of a block device around a copy (C18). Two settings are changed    *)
(* one after the other, the data are copied, and the settings are restored   *)
(* in reverse order. Any access may fail if the environment says so; one     *)
(* interrupt may arrive at any step, also within an access: then the access  *)
(* happens (or not) and the interrupt is noticed after it.                   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS BUG
S == {1, 2}
VARIABLES init, cur, rd, wr, bk,      \* environment: initial value ("want" | "other"), readable, may be changed, may be changed back
          old, mod, pc, intr, ending, outcome, written
vars == <<init, cur, rd, wr, bk, old, mod, pc, intr, ending, outcome, written>>
env == <<init, rd, wr, bk>>
Init == /\ init \in [S -> {"want", "other"}] /\ cur = init /\ rd \in [S -> BOOLEAN] /\ wr \in [S -> BOOLEAN] /\ bk \in [S -> BOOLEAN]
        /\ old = [s \in S |-> "none"] /\ mod = [s \in S |-> FALSE] /\ pc = <<"read", 1>> /\ intr = FALSE
        /\ ending = "ok" /\ outcome = "" /\ written = {}
\* where an interrupt leads to: everything entered so far is restored
Leave(s) == IF s = 0 THEN <<"done", 0>> ELSE <<"restore", s>>
NextOf(s) == IF s = 1 THEN <<"read", 2>> ELSE <<"copy", 0>>
Interrupted(s, entered) == /\ intr' = TRUE /\ ending' = "interrupt"
                           /\ pc' = IF BUG = "modifiedlate" THEN Leave(entered) ELSE Leave(s)
Read(s) ==
        /\ pc = <<"read", s>>
        /\ IF rd[s] THEN old' = [old EXCEPT ![s] = cur[s]] ELSE UNCHANGED old
        /\ \/ /\ pc' = (IF ~rd[s] THEN (IF BUG = "failfatal" THEN Leave(s - 1) ELSE NextOf(s))
                        ELSE IF cur[s] = "want" /\ BUG # "writesame" THEN NextOf(s) ELSE <<"set", s>>)
              /\ ending' = (IF ~rd[s] /\ BUG = "failfatal" THEN "error" ELSE ending) /\ UNCHANGED intr
           \/ ~intr /\ Interrupted(s - 1, s - 1)
        /\ UNCHANGED <<env, cur, mod, outcome, written>>
Set(s) == /\ pc = <<"set", s>>
          /\ \/ /\ wr[s] /\ cur' = [cur EXCEPT ![s] = "want"] /\ written' = written \cup {s}
                /\ \/ /\ mod' = [mod EXCEPT ![s] = TRUE] /\ pc' = NextOf(s) /\ UNCHANGED <<intr, ending>>
                   \/ ~intr /\ Interrupted(s, s - 1) /\ mod' = (IF BUG = "modifiedlate" THEN mod ELSE [mod EXCEPT ![s] = TRUE])
                /\ UNCHANGED <<env, old, outcome>>
             \/ /\ ~wr[s]
                /\ \/ pc' = NextOf(s) /\ UNCHANGED <<intr, ending>>
                   \/ ~intr /\ Interrupted(s - 1, s - 1)
                /\ UNCHANGED <<env, cur, old, mod, outcome, written>>
Copy == /\ pc[1] = "copy" /\ pc' = <<"restore", 2>>
        /\ \/ UNCHANGED <<intr, ending>>
           \/ ending' = "error" /\ UNCHANGED intr
           \/ ~intr /\ intr' = TRUE /\ ending' = "interrupt"
        /\ UNCHANGED <<env, cur, old, mod, outcome, written>>
Restore(s) ==
   /\ pc = <<"restore", s>>
   /\ IF ~mod[s] \/ (BUG = "norestore" /\ ending # "ok")
      THEN pc' = Leave(s - 1) /\ UNCHANGED <<env, cur, old, mod, intr, ending, outcome, written>>
      ELSE IF ~bk[s]
      THEN /\ mod' = [mod EXCEPT ![s] = FALSE] /\ ending' = "error" /\ pc' = (IF BUG = "first" THEN <<"done", 0>> ELSE Leave(s - 1))
           /\ UNCHANGED <<env, cur, old, intr, outcome, written>>
      ELSE \/ /\ cur' = [cur EXCEPT ![s] = old[s]] /\ mod' = [mod EXCEPT ![s] = FALSE] /\ pc' = Leave(s - 1) /\ UNCHANGED <<env, old, intr, ending, outcome, written>>
           \* interrupted before the value was written: once more
           \/ /\ ~intr /\ intr' = TRUE /\ ending' = "interrupt" /\ pc' = (IF BUG = "onetry" THEN Leave(s - 1) ELSE pc)
              /\ UNCHANGED <<env, cur, old, mod, outcome, written>>
Done == pc[1] = "done" /\ outcome = "" /\ outcome' = ending /\ UNCHANGED <<env, cur, old, mod, pc, intr, ending, written>>
Next == (\E s \in S : Read(s) \/ Set(s) \/ Restore(s)) \/ Copy \/ Done \/ (outcome # "" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Restored == outcome # "" => \A s \in S : cur[s] = init[s] \/ (~bk[s] /\ ~mod[s] /\ ending # "ok")
Untouched == \A s \in written : init[s] # "want"
Ends == <>(outcome # "")
\* failing to read or to change a setting is no reason for failing: only the copy itself or a failed restoration is
NotFatal == [][(pc[1] \in {"read", "set"}) => ending' # "error"]_vars
=============================================================================
