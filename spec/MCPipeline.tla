----------------------------- MODULE MCPipeline -----------------------------
EXTENDS CopyPipeline
P(kind, nb, tail, bsz, map, split, known, verify, sync, miss, bad, zeros, cnt) ==
  [kind |-> kind, nb |-> nb, tail |-> tail, bsz |-> bsz, map |-> map, split |-> split, known |-> known, verify |-> verify,
   sync |-> sync, miss |-> miss, bad |-> bad, zeros |-> zeros, cnt |-> cnt]
Kinds == {"reg", "bdev"}

\* all layouts of up to 4 blocks, two blocks per batch
Small == {P(k, nb, t, 524288, m, sp, kn, v, sy, ms, b, z, c) :
            k \in Kinds, nb \in {3}, t \in {0, 1}, m \in SUBSET (0..2), sp \in BOOLEAN, kn \in {TRUE}, v \in {TRUE, FALSE},
            sy \in {TRUE}, ms \in {-1, 0, 1}, b \in {-1, 1}, z \in {{}}, c \in {-1, 0, 1}}
         \cup {P(k, nb, t, 524288, {-1}, FALSE, TRUE, FALSE, sy, ms, -1, z, 0) :
            k \in Kinds, nb \in 1..4, t \in {0, 1}, sy \in BOOLEAN, ms \in {-1, 0, 1}, z \in {{}, {1}}}
         \cup {P(k, nb, t, 524288, {-1}, FALSE, FALSE, FALSE, sy, 0, -1, z, 0) :
            k \in Kinds, nb \in 1..4, t \in {0, 1}, sy \in BOOLEAN, z \in {{}, {1}}}
\* long enough to fill the queue and to pass the watermark twice
Long == {P(k, 16, 1, 1048576, m, FALSE, TRUE, TRUE, TRUE, ms, b, {}, 0) :
            k \in Kinds, m \in {0..15, (0..15) \ {3, 9}}, ms \in {0, 2}, b \in {-1, 11}}
        \cup {P(k, 15, t, 1048576, {-1}, FALSE, kn, FALSE, TRUE, ms, -1, {}, 0) : k \in Kinds, t \in {0, 1}, kn \in BOOLEAN, ms \in {0}}
Crash == {P(k, 4, 1, 524288, m, FALSE, TRUE, TRUE, TRUE, 0, -1, {}, 0) : k \in Kinds, m \in {{0, 2, 3}, {1}, 0..3}}
         \cup {P(k, 3, 0, 524288, {-1}, FALSE, kn, TRUE, TRUE, 0, -1, {}, 0) : k \in Kinds, kn \in BOOLEAN}
\* schedules for replay: 1 MiB batches, longer than the queue
Replay == {P(k, 12, t, 1048576, m, FALSE, TRUE, TRUE, TRUE, 0, -1, {}, 0) :
              k \in Kinds, t \in {0, 1}, m \in {0..11, (0..11) \ {4}, {0, 1, 5, 6, 7, 11}}}
          \cup {P(k, 12, 1, 1048576, m, FALSE, TRUE, TRUE, TRUE, mb[1], mb[2], {}, 0) :
              k \in Kinds, m \in {0..11, {0, 1, 5, 6, 7, 11}}, mb \in {<<1, -1>>, <<0, 6>>, <<-1, 1>>}}
           \cup {P(k, 11, t, 1048576, {-1}, FALSE, kn, TRUE, TRUE, 0, -1, {}, 0) : k \in Kinds, t \in {0, 1}, kn \in BOOLEAN}
=============================================================================
