----------------------------- MODULE CopyTrace -----------------------------
(* Validates recorded executions of the real code against CopyContract.      *)
(* Every trace gets exactly one verdict: the set of violated clauses.        *)
EXTENDS CopyContract, TLC, TLCExt, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)

VARIABLES t, i, st, viol
vars == <<t, i, st, viol>>

Init == /\ t \in 1..Len(Traces) /\ i = 1 /\ st = Start(Traces[t]) /\ viol = {}

Step == /\ i <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[i] IN
             /\ viol' = viol \cup Violations(Traces[t], st, e)
             /\ st' = Apply(Traces[t], st, e)
        /\ i' = i + 1 /\ UNCHANGED t

Done == /\ i = Len(Traces[t].events) + 1
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> viol, out |-> st.out, hit |-> Hits(Traces[t], st)]))
        /\ i' = i + 1 /\ UNCHANGED <<t, st, viol>>

Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
