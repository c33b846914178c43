----------------------------- MODULE GenStream -----------------------------
(* Sequences of calls on a reader of n cells of some size (C14).             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.VP_N)
Pick(seq) == seq[RandomElement(1..Len(seq))]
Op(n) == LET k == Pick(<<"r", "r", "r", "s", "s", "s", "t">>) IN
   [o |-> k,
    a |-> IF k = "r" THEN Pick(<<-1, 0, 1, 1, 2, n, n + 1>>) ELSE IF k = "s" THEN RandomElement(-2..(n + 2)) ELSE 0,
    d |-> Pick(<<0, 0, 1, -1, 7>>),
    w |-> IF k = "s" THEN Pick(<<0, 0, 0, 1, 1, 2>>) ELSE 0]
Case(x) == LET n == Pick(<<0, 1, 2, 3, 5>>) IN
   [x |-> x, n |-> n, unit |-> Pick(<<1, 100, 4096, 70001, 262144, 1048576>>), cut |-> RandomElement(0..1), ops |-> [i \in 1..Pick(<<1, 2, 4, 6, 8>>) |-> Op(n)]]
VARIABLE sc
Init == sc \in {Case(x) : x \in 1..N} /\ PrintT("SCENARIO " \o ToJson(sc))
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc
=============================================================================
