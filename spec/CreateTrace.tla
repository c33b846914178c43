----------------------------- MODULE CreateTrace -----------------------------
(* One run of bmap creation: what was announced about the environment, the   *)
(* observed system calls on the image, the outcome, and the generated file   *)
(* as an independent reader sees it.                                         *)
EXTENDS Runs, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done

If(c, n) == IF c THEN {n} ELSE {}
Ceil(a, b) == (a + b - 1) \div b

\* where the layout can be trusted to come from
LayoutTrusted(T) == \/ T.fiemap = "ok"
                    \/ T.fiemap = "notsupp" /\ T.seek = "real"
ZfsOk(T) == T.zfs \in {"none", "on"}
MustFail(T) == ~LayoutTrusted(T) \/ ~ZfsOk(T) \/ T.isize = 0 \/ ~T.hashok \/ T.faults > 0

\* image synchronised before the first layout query of the process
FirstLayout(T) == IF \E i \in 1..Len(T.events) : T.events[i] = "layout"
                  THEN CHOOSE i \in 1..Len(T.events) : T.events[i] = "layout" /\ \A j \in 1..(i - 1) : T.events[j] # "layout" ELSE 0
SyncFirst(T) == FirstLayout(T) = 0 \/ \E j \in 1..(FirstLayout(T) - 1) : T.events[j] = "sync"

BmapViol(T) ==
  LET b == T.bm
      M == Window(0, Ceil(T.isize, T.bsz)) \cap Blocks(T.ext) IN
  IF b.err # "" THEN {"C10_unreadable"}
  ELSE If(b.isize # T.isize, "C10_imagesize") \cup If(b.bsz # T.bsz, "C10_blocksize")
       \cup If(b.blocks # Ceil(T.isize, T.bsz), "C10_blocks") \cup If(b.mapped # Cardinality(M), "C10_mapped")
       \cup If(~IsRuns(b.ranges, M), "C10_ranges")
       \cup If(\E i \in 1..Len(b.sums) : b.sums[i] # (IF T.cs THEN 1 ELSE 0), "C10_rangesum")
       \cup If(Len(b.sums) # Len(b.ranges), "C10_rangesum")
       \cup If(~b.selfok, "C10_filesum") \cup If(b.hash # T.hash, "C10_hash")
       \cup If(~T.same, "C10_twice") \cup If(~T.posok, "C10_position")
       \cup If(T.attrs # <<>> /\ T.attrs # <<T.isize, T.bsz, Ceil(T.isize, T.bsz), Cardinality(M), Cardinality(M) * T.bsz>>, "C10_attributes")

Viol(T) ==
  CASE T.out = "ok" ->
         If(T.isize = 0, "C13_empty") \cup If(~T.hashok, "C13_hash") \cup If(~ZfsOk(T), "C13_zfs") \cup If(~LayoutTrusted(T), "C13_layout")
         \cup If(T.faults > 0, "C13_fault") \cup If(~SyncFirst(T), "C13_notsynced")
         \cup (IF MustFail(T) THEN {} ELSE BmapViol(T))
         \cup (IF MustFail(T) \/ T.fiemap = "ok" \/ BmapViol(T) \cap {"C10_ranges"} = {} THEN {} ELSE {"C13_wrong"})
    [] T.out = "fail" -> (IF MustFail(T) THEN {} ELSE {"C10_refused"} \cup If(T.fiemap # "ok" \/ T.zfs # "none", "C13_refused"))
    [] OTHER -> {"C10_hang", "C13_hang"}
  \cup If(T.modified, "C21_modified")
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]),
                  hit |-> If(MustFail(Traces[t]), "must_fail") \cup If(~MustFail(Traces[t]), "must_succeed") \cup If(Traces[t].out = "ok", "ok")]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
