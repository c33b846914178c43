---------------------------- MODULE TogetherTrace ----------------------------
(* Recorded pieces of work that shared a process: each has to have exactly   *)
(* the result it has alone (Together!Result), whatever the others did.       *)
EXTENDS Runs, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
Elems(s) == {s[i] : i \in 1..Len(s)}
Min(a, b) == IF a < b THEN a ELSE b

Copy(X) ==
   LET M == Elems(X.map) IN
        If(X.o # (IF X.fail THEN "fail" ELSE "ok"), "C28_outcome")
   \cup If(X.o = "ok" /\ (X.dsize # X.size \/ \E b \in 1..X.nb : X.dst[b] # (IF b - 1 \in M THEN X.src[b] ELSE X.old[b])), "C28_data")
   \cup If(X.o = "fail" /\ \E b \in 1..X.nb : X.dst[b] \notin ({X.old[b]} \cup (IF b - 1 \in M THEN {X.src[b]} ELSE {})), "C28_data")
   \cup If(\/ \E i \in 1..Len(X.prog) : X.prog[i] < 0 \/ X.prog[i] > 100 \/ (i > 1 /\ X.prog[i] < X.prog[i - 1])
           \/ X.o = "ok" /\ X.prog # <<>> /\ X.prog[Len(X.prog)] # 100, "C28_progress")
   \cup If(\E i \in 1..Len(X.tune) : X.tune[i][1] # X.tune[i][2], "C28_tuning")

\* a reader that skips X.old[1] bytes and reads X.nb at most, X.old[2] times, and then the rest
RECURSIVE Stream(_, _, _)
Stream(X, i, at) == IF i > Len(X.reads) THEN TRUE
                    ELSE LET r == X.reads[i]
                             p == IF i < Len(X.reads) THEN Min(X.size, at + X.old[1]) ELSE at
                             n == IF i < Len(X.reads) THEN Min(X.nb, X.size - p) ELSE X.size - p
                         IN /\ r[2] = n /\ r[3] = r[1] /\ (n > 0 => r[1] = p) /\ Stream(X, i + 1, p + n)

Steps(X) ==
   LET A == Window(0, X.nb) \cap Blocks(X.ext) IN
        If(X.o # "ok", "C28_outcome")
   \cup If(X.o = "ok" /\ X.what = "create" /\ ~IsRuns(X.m, A), "C28_map")
   \cup If(X.o = "ok" /\ X.what = "create" /\ ~X.sums, "C28_sums")
   \cup If(X.o = "ok" /\ X.what = "map" /\ ~(IsRuns(X.m, A) /\ IsRuns(X.u, Window(0, X.nb) \ A) /\ \A i \in 1..Len(X.b) : X.b[i][2] <=> (X.b[i][1] \in A)), "C28_map")
   \cup If(X.o = "ok" /\ X.what = "trans" /\ ~(Len(X.reads) = X.old[2] + 1 /\ Stream(X, 1, 0)), "C28_stream")

Viol(R) == UNION {IF R.task[i].what = "copy" THEN Copy(R.task[i]) ELSE Steps(R.task[i]) : i \in 1..Len(R.task)}
Hit(R) == {R.mode} \cup If(R.mixed, "mixed") \cup {R.task[i].what : i \in 1..Len(R.task)}
          \cup If(\E i \in 1..Len(R.task) : R.task[i].fail, "fail") \cup If(\E i \in 1..Len(R.task) : R.task[i].tune # <<>>, "tuned")
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> Hit(Traces[t])]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
