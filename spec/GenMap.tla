------------------------------- MODULE GenMap -------------------------------
(* Sparse layouts and creation scenarios for the conformance checks.         *)
EXTENDS Runs, TLC, Json, IOUtils, Randomization
N == atoi(IOEnv.VP_N)
Sample(D) == IF N = 0 THEN D ELSE IF N >= Cardinality(D) THEN D ELSE RandomSubset(N, D)

\* every layout of a file of 5 blocks whose extents may reach one block beyond its end
Small(d) == Sample({[ext |-> e, nb |-> 5, cut |-> c] : e \in Layouts(0, 5), c \in {0, 1}})
\* layouts of 7 blocks, beyond by two
Wide(d) == Sample({[ext |-> e, nb |-> 7, cut |-> c] : e \in Layouts(0, 8), c \in {0, 1}})

\* interleaved queries over one layout
Queries(nb) == {q \in [k : {"m", "u"}, s : 0..(nb - 1), c : 0..nb] : q.s + q.c <= nb}
Inter(d) == {[ext |-> RandomElement(Layouts(0, 5)), nb |-> 5, cut |-> x % 2, q1 |-> RandomElement(Queries(5)), q2 |-> RandomElement(Queries(5)),
              blk |-> RandomElement(0..4), sched |-> [i \in 1..8 |-> RandomElement(1..3)]] : x \in 1..(IF N = 0 THEN 500 ELSE N)}

\* creation
CreateDom == [bsz : {1024, 4096, 65536}, nb : {1, 2, 5, 6}, cut : {0, 1, 511, 1023}, hash : {"sha256", "md5", "sha1", "sha512", "SHA256", "blake2b", ""},
              cs : {0, 1, 2}, image : {"path", "object", "raw", "pending"}, out : {"path", "object"}, trim : {0, 1}, method : {"fiemap", "seek"}, pos : {0, 1, 777}, pos2 : {-1, 0, 555}]
Create(d) == {x @@ [ext |-> RandomElement(Layouts(0, x.nb))] : x \in Sample(CreateDom)}

\* sizes around which the human-readable size gets longer or shorter: the image on one side, the mapped data on the other
HumanDom == [nb : {2, 3, 9, 10, 11, 25, 26, 99, 100, 249, 250, 251, 253, 254, 255, 256, 257, 260, 261, 264, 511, 512, 2559, 2560, 2563}, hole : {0, 1, 2, 3, 5, 6, 8, 200}, bsz : {4096, 1024, 40960},
             cut : {0, 1, 900}, out : {"path", "object"}]
Human(d) == {[ext |-> IF x.hole = 0 THEN <<<<0, x.nb>>>> ELSE IF x.hole >= x.nb - 1 THEN <<<<0, 1>>>> ELSE <<<<0, 1>>, <<1 + x.hole, x.nb - 1 - x.hole>>>>, nb |-> x.nb, bsz |-> x.bsz, cut |-> x.cut,
              hash |-> "sha256", cs |-> 1, image |-> "path", out |-> x.out, trim |-> 0, method |-> "fiemap", pos |-> 0, pos2 |-> -1] : x \in Sample(HumanDom)}

\* environments of creation: one axis is varied at a time, or two
Env(d) == {e \in [fiemap : {"ok", "notsupp", "enotty", "eio", "einval"}, seek : {"real", "stub", "unsupported", "error"},
                  zfs : {"none", "on", "off", "missing", "garbage"}, empty : BOOLEAN, hash : {"sha256", "nosuch", "sha512"},
                  fault : {"none", "fsync", "fiemap1", "fiemap2", "seek2", "seek3"}, cli : BOOLEAN, cs : BOOLEAN] :
             /\ Cardinality({a \in {1, 2, 3, 4, 5} : CASE a = 1 -> e.fiemap # "ok" [] a = 2 -> e.seek # "real" [] a = 3 -> e.zfs # "none" [] a = 4 -> e.empty
                                                  [] a = 5 -> e.fault # "none"}) <= 2
             /\ (e.seek # "real" => e.fiemap # "ok")
             /\ (e.fault \in {"seek2", "seek3"} => e.fiemap \in {"notsupp", "enotty"} /\ e.seek = "real")
             /\ (e.fault \in {"fiemap1", "fiemap2"} => e.fiemap = "ok")
             /\ (e.empty => e.fault \in {"none", "fsync"})
             /\ (e.cli => e.hash = "sha256") /\ (e.hash = "sha512" => e.cs)}
EnvS(d) == Sample(Env(d))

Family == CASE IOEnv.VP_FAMILY = "Small" -> Small(0) [] IOEnv.VP_FAMILY = "Wide" -> Wide(0) [] IOEnv.VP_FAMILY = "Inter" -> Inter(0)
            [] IOEnv.VP_FAMILY = "Create" -> Create(0) [] IOEnv.VP_FAMILY = "Human" -> Human(0) [] IOEnv.VP_FAMILY = "Env" -> EnvS(0)
VARIABLE sc
Init == sc \in Family /\ PrintT("SCENARIO " \o ToJson(sc))
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc
=============================================================================
