------------------------------- MODULE GenFar -------------------------------
(* Very long sparse images: data around the offsets and block numbers where  *)
(* number formats change (2^31 .. 2^39 bytes, 10^5 .. 10^7 blocks).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
N == atoi(IOEnv.VP_N)
Exp(b) == CASE b = 512 -> 9 [] b = 4096 -> 12 [] b = 65536 -> 16
Points(b) == <<0, 99999, 999999, 1000000, 9999999, 2 ^ (31 - Exp(b)), 2 ^ (32 - Exp(b)), 2 ^ (33 - Exp(b)), 2 ^ (39 - Exp(b))>>
Dom == [b : {512, 4096, 65536}, p : SUBSET (1..9), d : -2..2, l : {1, 2, 3, 40, 257}, cut : {0, 1, 300, 511}, gap : {0, 1, 700}, kind : {"reg", "bdev"}, order : {"asc", "desc"},
        ver : {"1.2", "1.3", "1.4", "2.0"}, old : BOOLEAN]
OK(x) == x.p # {} /\ (x.b = 65536 => x.l < 40)
Max2(a, b) == IF a > b THEN a ELSE b
Runs(x) == {<<Max2(0, Points(x.b)[i] + x.d), x.l>> : i \in x.p}
VARIABLE sc
Init == /\ sc \in {x \in RandomSubset(N, Dom) : OK(x)}
        /\ PrintT("SCENARIO " \o ToJson([b |-> sc.b, runs |-> Runs(sc), cut |-> sc.cut, gap |-> sc.gap, kind |-> sc.kind, order |-> sc.order, ver |-> sc.ver, old |-> sc.old]))
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc
=============================================================================
