------------------------------ MODULE GenCopy ------------------------------
(* Enumerates (or samples) copy scenarios for the conformance checks: every  *)
(* initial state is one scenario, printed as JSON. The family is selected by *)
(* the environment variable VP_FAMILY, VP_N limits it to a random subset.    *)
(* (Families take a dummy argument so that TLC evaluates only the chosen one)*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

KiB == 1024
MiB == 1048576
Kinds == {"reg", "bdev"}
Base == [kind |-> "reg", bsz |-> 4096, cpb |-> 1, nb |-> 4, cut |-> 0, map |-> {-1}, split |-> "max", cs |-> "all", known |-> FALSE,
         verify |-> TRUE, sync |-> TRUE, miss |-> 0, bad |-> -1, zeros |-> {}, cnt |-> 0, old |-> 0, cap |-> 0, version |-> "2.0",
         hash |-> "sha256", single |-> "X", order |-> "asc", fault |-> <<>>, wrong |-> -1,
         same |-> 0, dm |-> "trunc", via |-> "wrap"]

N == atoi(IOEnv.VP_N)
\* sampled before it is mapped: sets of records are never enumerated
Sample(D) == IF N = 0 THEN D ELSE IF N >= Cardinality(D) THEN D ELSE RandomSubset(N, D)

\* old: the destination exists - 0: no, 1: as long as the image, 2: shorter, 3: longer
\* dm: the destination file object - truncating, not truncating, not positioned at its start
Olds == 0..3
Modes == {"trunc", "keep", "pos"}
LayoutDom == [kind : Kinds, cut : {0, 1, 2048, 4095}, map : SUBSET (0..4), split : {"max", "one", "two"}, known : BOOLEAN, verify : BOOLEAN, sync : BOOLEAN,
              old : Olds, order : {"asc", "desc", "mix"}, dm : Modes, zeros : {{}, {}, {0}, {1, 2}, {4}}, same : {0, 0, 2}]
Layout(d) == {[Base EXCEPT !.kind = x.kind, !.nb = 5, !.cut = x.cut, !.map = x.map, !.split = x.split, !.known = x.known, !.verify = x.verify, !.sync = x.sync,
                           !.old = x.old, !.order = x.order, !.dm = x.dm, !.zeros = x.zeros, !.same = x.same] : x \in Sample(LayoutDom)}

\* everything varies at once
WildDom == [kind : Kinds, bsz : {512, 1024, 4096, 65536, 524288, 700000}, nb : {1, 2, 3, 5, 9, 17}, cut : {0, 1, 300, 511}, shape : 0..11, so : {"max", "one", "two", "desc"},
            known : BOOLEAN, verify : BOOLEAN, sync : BOOLEAN, old : Olds, zeros : {{}, {0}, {1, 2}, {8}}, same : {0, 1, 3}, ver : {"1.2", "1.3", "1.4", "2.0"},
            dm : Modes, cs : {"all", "none", "odd"}, cpb : {1, 2}]
Shape(i, n) == LET B == 0..(n - 1) IN
  CASE i = 0 -> B [] i = 1 -> {} [] i = 2 -> {0} [] i = 3 -> {n - 1} [] i = 4 -> B \ {n \div 2} [] i = 5 -> {b \in B : b % 2 = 0} [] i = 6 -> {b \in B : b % 2 = 1}
    [] i = 7 -> {b \in B : b < n \div 2} [] i = 8 -> {b \in B : b >= n \div 2} [] i = 9 -> {b \in B : b % 3 # 0} [] i = 10 -> {n \div 2} [] OTHER -> {-1}
Wild(d) == {[Base EXCEPT !.kind = x.kind, !.bsz = x.bsz, !.nb = x.nb, !.cut = x.cut, !.map = Shape(x.shape, x.nb), !.split = IF x.so = "desc" THEN "max" ELSE x.so,
                         !.order = IF x.so = "desc" THEN "desc" ELSE "asc", !.known = x.known, !.verify = x.verify, !.sync = x.sync, !.old = x.old, !.zeros = x.zeros,
                         !.same = x.same, !.version = x.ver, !.dm = x.dm, !.cs = x.cs, !.cpb = x.cpb, !.single = IF x.so = "two" THEN "X-X" ELSE "X",
                         !.via = CASE x.cut = 300 -> "plain" [] x.cut = 1 -> "reader" [] x.cut = 511 /\ x.known -> "raw" [] OTHER -> "wrap"] : x \in Sample(WildDom)}

\* ranges that start and end around the boundaries of 1 MiB batches, with m blocks per batch
BatchDom == [kind : Kinds, m : {2, 4}, n : {9, 14}, cut : {0, 1, 5000}, a : 1..5, l : 1..8, a2 : 1..5, l2 : 0..4, sp : {"max", "two"},
             known : BOOLEAN, verify : BOOLEAN, sync : BOOLEAN]
BatchMap(x) == LET A == <<0, 1, x.m - 1, x.m, x.m + 1>>
                   L == <<1, x.m - 1, x.m, x.m + 1, 2 * x.m - 1, 2 * x.m, 2 * x.m + 1, x.n>>
                   R(a, l) == {b \in 0..(x.n - 1) : b >= a /\ b < a + l}
               IN R(A[x.a], L[x.l]) \cup (IF x.l2 = 0 THEN {} ELSE R(x.m + A[x.a2] + 3, L[x.l2])) \cup (IF x.l2 = 4 THEN {x.n - 1} ELSE {})
Batches(d) == {[Base EXCEPT !.kind = x.kind, !.bsz = MiB \div x.m, !.nb = x.n, !.cut = x.cut, !.map = BatchMap(x), !.split = x.sp, !.known = x.known,
                            !.verify = x.verify, !.sync = x.sync, !.old = 1] : x \in Sample(BatchDom)}

BlockSizes(d) == {[Base EXCEPT !.kind = k, !.bsz = b, !.nb = n, !.cut = c, !.map = r, !.verify = v, !.known = kn, !.sync = sy] :
             k \in Kinds, b \in {512, 1000, 1024, 2048, 65536, 200000, 300000, 393216, 700000, MiB, MiB + 4096, 2 * MiB},
             n \in {3, 7}, c \in {0, 1, 511}, r \in {{0}, {1}, {0, 2}, {1, 2}, 0..2, (0..6) \ {3}, 0..6}, v \in BOOLEAN, kn \in BOOLEAN, sy \in BOOLEAN}
BlockSizesOK(d) == {p \in BlockSizes(d) : \A x \in p.map : x < p.nb}

NoBmapDom == [kind : Kinds, nb : {0, 1, 2, 3, 5, 255, 256, 257, 512, 513}, cut : {0, 1, 4095}, known : BOOLEAN, sync : BOOLEAN,
              zeros : {{}, {0}, {1}, {0, 1, 2, 3, 4}, {255}, {2, 3, 4}, {4}, 0..254, 0..512}, old : Olds, verify : BOOLEAN, dm : Modes, same : {0, 1, 2}, via : {"wrap", "plain", "reader", "raw"}]
NoBmap(d) == {[Base EXCEPT !.kind = x.kind, !.nb = x.nb, !.bsz = 4096, !.cut = x.cut, !.known = x.known, !.sync = x.sync, !.zeros = x.zeros, !.old = x.old, !.verify = x.verify,
                           !.dm = x.dm, !.same = x.same, !.via = x.via] : x \in Sample(NoBmapDom)}
NoBmapBig(d) == {[Base EXCEPT !.kind = k, !.nb = n, !.cut = c, !.known = kn, !.sync = sy, !.old = 1] :
             k \in Kinds, n \in {2047, 2304, 2305, 3000}, c \in {0, 1, 4095}, kn \in BOOLEAN, sy \in BOOLEAN}

Sums(d) == UNION {{[Base EXCEPT !.kind = k, !.bsz = b, !.cpb = 2, !.nb = 5, !.cut = c, !.map = m, !.split = sp, !.cs = cs, !.bad = bd, !.verify = v,
                        !.hash = h, !.version = ve, !.wrong = w, !.same = sm] :
             sm \in {0, 1, 3}, k \in {"reg"}, c \in {0, 1, 100}, m \in {0..4, {0, 1, 3, 4}, {1, 2}, {4}, {0, 2, 4}}, sp \in {"max", "two", "one"}, cs \in {"all", "none", "odd", "even"},
             bd \in -1..9, v \in BOOLEAN, h \in {"sha256"}, ve \in {"2.0"}, w \in {-1}} : b \in {4096, 524288}}
SumsHash(d) == {[Base EXCEPT !.nb = 5, !.cpb = 2, !.map = {0, 1, 3, 4}, !.cut = 100, !.bad = bd, !.hash = h, !.version = ve, !.wrong = w, !.verify = v, !.cs = cs, !.kind = k] :
             bd \in {-1, 0, 5, 7, 9}, h \in {"md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "sha3_256"}, ve \in {"1.3", "1.4", "2.0"}, w \in {-1, 0, 1}, v \in BOOLEAN,
             cs \in {"all", "odd"}, k \in Kinds}

Misfit(d) == {[Base EXCEPT !.kind = k, !.nb = 5, !.bsz = b, !.cut = c, !.map = m, !.miss = ms, !.verify = v, !.known = kn, !.cs = cs, !.cnt = ct, !.sync = sy, !.split = sp] :
             k \in Kinds, b \in {4096, 524288}, c \in {0, 1}, m \in {{-1}, {}, 0..4, {0, 1}, {1, 2, 4}, {4}, {3}, {0, 2}}, ms \in {0, 1, 100, 4095, 4096, 4097, 8193, 16384, 20479},
             v \in BOOLEAN, kn \in BOOLEAN, cs \in {"all", "none"}, ct \in {-1, 0, 1}, sy \in {FALSE}, sp \in {"max", "one"}}
MisfitOK(d) == {p \in Misfit(d) : /\ (p.map = {-1} => p.cnt = 0 /\ p.known)
                            /\ (p.miss # 0 => (p.known = (p.map = {-1})))
                            /\ (p.cnt # 0 => ~p.known)
                            /\ Cardinality(p.map) + p.cnt >= 0}

\* images which are longer than their bmap says (their size is not known in advance)
Longer(d) == {[Base EXCEPT !.kind = k, !.nb = 5, !.bsz = b, !.cut = c, !.map = m, !.miss = ms, !.verify = v, !.cs = cs, !.sync = sy, !.split = sp] :
             k \in Kinds, b \in {1024, 4096, 65536, 524288}, c \in {0, 1, 1000}, m \in {{}, 0..4, {0, 1}, {1, 2, 4}, {4}, {3}, {0, 2, 3, 4}},
             ms \in {-1, -100, -1000, -4095, -4096, -10000, -2000000}, v \in BOOLEAN, cs \in {"all", "none"}, sy \in BOOLEAN, sp \in {"max", "one", "two"}}

\* one operation fails: which one and when
FaultAt(p, f) == [p EXCEPT !.fault = f]
FaultBase(d) == {[Base EXCEPT !.kind = k, !.bsz = 524288, !.nb = 18, !.cut = c, !.map = m, !.known = TRUE, !.sync = sy, !.via = vi] :
             vi \in {"wrap", "raw"}, k \in Kinds, c \in {0, 1}, m \in {{-1}, 0..17, (0..17) \ {5, 6}}, sy \in {TRUE}}
Faults(d) == {FaultAt(p, <<"dest", "write", n, "errno", e>>) : p \in FaultBase(d), n \in {1, 2, 3, 5, 8, 9}, e \in {5, 28}}
   \cup {FaultAt(p, <<"image", "read", n, "errno", 5>>) : p \in FaultBase(d), n \in {1, 2, 4, 8, 9}}
   \cup {FaultAt(p, <<"dest", "fsync", n, "errno", e>>) : p \in FaultBase(d), n \in {1, 2}, e \in {5, 28}}
   \cup {FaultAt(p, <<"dest", "ftruncate", n, "errno", e>>) : p \in {q \in FaultBase(d) : q.kind = "reg"}, n \in {1, 2}, e \in {5, 27}}
FaultSmallBase(d) == {[Base EXCEPT !.kind = k, !.bsz = 4096, !.nb = 6, !.cut = c, !.map = m, !.known = kn, !.sync = TRUE, !.verify = v, !.via = vi] :
             vi \in {"wrap", "raw"}, k \in Kinds, c \in {0, 1}, m \in {{-1}, {0, 2, 4}, {1, 2, 5}}, kn \in BOOLEAN, v \in BOOLEAN}
FaultsSmall(d) == {FaultAt(p, <<"dest", "write", n, "errno", e>>) : p \in FaultSmallBase(d), n \in {1, 2, 3}, e \in {5, 28, 32}}
   \cup {FaultAt(p, <<"image", "read", n, "errno", 5>>) : p \in FaultSmallBase(d), n \in {1, 2, 3}}
   \cup {FaultAt(p, <<"dest", "fsync", 1, "errno", e>>) : p \in FaultSmallBase(d), e \in {5, 22}}
   \cup {FaultAt(p, <<"dest", "ftruncate", n, "errno", 5>>) : p \in {q \in FaultSmallBase(d) : q.kind = "reg"}, n \in {1, 2}}

\* partial transfers
Short(d) == {FaultAt([Base EXCEPT !.kind = k, !.bsz = b, !.nb = 7, !.cut = c, !.map = m, !.sync = sy, !.known = kn, !.via = vi], f) :
             vi \in {"wrap", "raw", "rawimage", "rawdest"}, k \in Kinds, b \in {4096, 524288}, c \in {0, 1}, m \in {{-1}, 0..6, {0, 1, 4, 6}}, sy \in BOOLEAN, kn \in BOOLEAN,
             f \in {<<"dest", "write", 0, "short", a>> : a \in {1000, 4097, 60000}} \cup {<<"dest", "write", 2, "short", 1>>}
                   \cup {<<"image", "read", 0, "short", a>> : a \in {1000, 4097, 100000}} \cup {<<"image", "read", 2, "short", 1>>}}
ShortOK(d) == {p \in Short(d) : IF p.bsz > 4096 THEN p.fault[5] > 4096 \/ p.fault[3] # 0 ELSE p.fault[5] < 5000}

\* regular synchronisation on devices
Sync(d) == {[Base EXCEPT !.kind = "bdev", !.bsz = b, !.nb = (17 * MiB) \div b, !.cut = c, !.map = m, !.known = kn, !.sync = sy, !.split = IF od = "asc" THEN "max" ELSE "one", !.order = od] :
             od \in {"asc", "desc", "mix"}, b \in {MiB \div 2, MiB, 700000, 393216}, c \in {0, 1}, m \in {{-1}, {-2}, {-3}}, kn \in BOOLEAN, sy \in BOOLEAN}

Progress(d) == {[Base EXCEPT !.kind = k, !.bsz = b, !.nb = n, !.cut = c, !.map = m, !.split = sp, !.known = kn] :
             k \in Kinds, b \in {4096, 262144}, n \in {1, 3, 7, 29, 40}, c \in {0, 1}, m \in {{-1}, {-2}, {-3}, {0}}, sp \in {"max", "one", "two"}, kn \in BOOLEAN}

Versions(d) == {[Base EXCEPT !.kind = k, !.nb = 5, !.cut = c, !.map = m, !.split = sp, !.version = ve, !.hash = h, !.single = si, !.verify = v, !.bad = bd, !.cs = cs] :
             k \in Kinds, c \in {0, 1, 2048, 4095}, m \in {{0}, {0, 1, 3}, 0..4, {4}, {}, {1, 2, 4}}, sp \in {"max", "one"}, ve \in {"1.0", "1.1", "1.2", "1.3", "1.4", "2.0"},
             h \in {"sha1", "sha256", "md5", "sha512"}, si \in {"X", "X-X", "X - Y"}, v \in BOOLEAN, bd \in {-1, 0, 4}, cs \in {"all", "none"}}

Capacity(d) == {[Base EXCEPT !.kind = "bdev", !.nb = 5, !.cut = c, !.map = m, !.known = kn, !.cap = ca, !.sync = sy, !.verify = v] :
             c \in {0, 1, 512}, m \in {{-1}, {0, 2}, {0, 4}, 0..4}, kn \in BOOLEAN, ca \in {20480, 20479, 20481, 20480 - 512, 16384, 4096, 40960}, sy \in BOOLEAN, v \in BOOLEAN}

Family == CASE IOEnv.VP_FAMILY = "Layout" -> Layout(0)
            [] IOEnv.VP_FAMILY = "Wild" -> Wild(0)
            [] IOEnv.VP_FAMILY = "Batches" -> Batches(0)
            [] IOEnv.VP_FAMILY = "BlockSizes" -> BlockSizesOK(0)
            [] IOEnv.VP_FAMILY = "NoBmap" -> NoBmap(0)
            [] IOEnv.VP_FAMILY = "NoBmapBig" -> NoBmapBig(0)
            [] IOEnv.VP_FAMILY = "Sums" -> Sums(0)
            [] IOEnv.VP_FAMILY = "SumsHash" -> SumsHash(0)
            [] IOEnv.VP_FAMILY = "Misfit" -> MisfitOK(0)
            [] IOEnv.VP_FAMILY = "Longer" -> Longer(0)
            [] IOEnv.VP_FAMILY = "Faults" -> Faults(0)
            [] IOEnv.VP_FAMILY = "FaultsSmall" -> FaultsSmall(0)
            [] IOEnv.VP_FAMILY = "Short" -> ShortOK(0)
            [] IOEnv.VP_FAMILY = "Sync" -> Sync(0)
            [] IOEnv.VP_FAMILY = "Progress" -> Progress(0)
            [] IOEnv.VP_FAMILY = "Versions" -> Versions(0)
            [] IOEnv.VP_FAMILY = "Capacity" -> Capacity(0)

Chosen == LET F == Family IN IF N = 0 \/ N >= Cardinality(F) THEN F ELSE RandomSubset(N, F)

VARIABLE p
Init == p \in Chosen /\ PrintT("SCENARIO " \o ToJson(p))
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
