---------------------------- MODULE CopyContract ----------------------------
(* The observable contract of one copy (BmapCopy / BmapBdevCopy / bmaptool   *)
(* copy): what may be done to the destination and which outcomes are allowed.*)
(*                                                                           *)
(* s  - the scenario (constant during a run): geometry, bmap, image, options *)
(* st - the observable state: destination cells, its size, what is not yet   *)
(*      synchronised, data in flight, faults that happened, outcome          *)
(* e  - one observable event                                                 *)
(*                                                                           *)
(* Apply(s, st, e)      - the state after the event                          *)
(* Violations(s, st, e) - the named clauses the event breaks in that state;  *)
(*                        a clause is named <property>_<what>                *)
(* Both the refinement proof obligation of the pipeline model (CopyPipeline) *)
(* and the validation of recorded executions (CopyTrace) use these operators.*)
(*                                                                           *)
(* Destination and image are sequences of cells (a cell is a part of one     *)
(* block; the image size is always a cell boundary). The content of a cell   *)
(* is a token: 0 = zeros, -1 = unrecognisable, other numbers = contents.     *)
EXTENDS Integers, Sequences, FiniteSets

Ceil(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

MiB == 1048576

\* ------------------------------------------------------------ scenario facts
Cells(s) == 1..Len(s.cells)
Blk(s, c) == s.cells[c][1]
InImage(s, c) == s.cells[c][2] = 1
Ranges(s) == s.bm.ranges
RangeIdx(s) == 1..Len(s.bm.ranges)
RF(s, r) == s.bm.ranges[r][1]
RL(s, r) == s.bm.ranges[r][2]
RC(s, r) == s.bm.ranges[r][3]

MappedBlk(s, b) == \E r \in RangeIdx(s) : RF(s, r) <= b /\ b <= RL(s, r)
Mapped(s, c) == s.hasbmap => MappedBlk(s, Blk(s, c))
\* cells the copy is obliged to reproduce
Wanted(s) == {c \in Cells(s) : InImage(s, c) /\ Mapped(s, c)}

ListedBlocks(s) == SumSeq([r \in RangeIdx(s) |-> RL(s, r) - RF(s, r) + 1])
Geometry(s) == s.hasbmap => s.bm.blocks = Ceil(s.bm.isize, s.bsz)
GoodRanges(s) == s.hasbmap => \A r \in RangeIdx(s) : RF(s, r) <= RL(s, r) /\ RL(s, r) < s.bm.blocks
CountMismatch(s) == s.hasbmap /\ ListedBlocks(s) # s.bm.mapped
SizeConflict(s) == s.hasbmap /\ s.known >= 0 /\ s.known # s.bm.isize
NeedEnd(s) == IF s.hasbmap
              THEN IF RangeIdx(s) = {} THEN 0
                   ELSE Min2((SetMax({RL(s, r) : r \in RangeIdx(s)}) + 1) * s.bsz, s.bm.isize)
              ELSE IF s.lossy THEN s.isize ELSE IF s.known >= 0 THEN s.known ELSE 0
Truncated(s) == s.srclen < NeedEnd(s)
\* the data delivered for a range with a checksum differ from the data it was made for
RangeBad(s, r) == \/ RC(s, r) = 2
                  \/ RC(s, r) = 1 /\ \E c \in Cells(s) : /\ InImage(s, c)
                                                         /\ RF(s, r) <= Blk(s, c) /\ Blk(s, c) <= RL(s, r)
                                                         /\ s.src[c] # s.orig[c]
ChecksumBad(s) == s.hasbmap /\ s.verify /\ s.cssup /\ \E r \in RangeIdx(s) : RangeBad(s, r)
TooBig(s) == s.kind = "bdev" /\ (IF s.hasbmap THEN s.bm.isize ELSE s.srclen) > s.cap
\* the final contents an undisturbed successful copy leaves
Target(s, c) == IF c \in Wanted(s) THEN s.src[c] ELSE IF s.kind = "reg" THEN 0 ELSE s.old[c]
TargetSize(s) == IF s.hasbmap THEN s.bm.isize ELSE s.srclen

\* everything in order: such a copy has to succeed unless an operation fails
Sound(s) == /\ Geometry(s) /\ GoodRanges(s) /\ ~CountMismatch(s) /\ ~SizeConflict(s)
            /\ ~Truncated(s) /\ ~ChecksumBad(s) /\ ~TooBig(s) /\ ~s.badbmap
\* it must fail, whatever happens during the copy
Hopeless(s) == \/ ~Geometry(s) \/ CountMismatch(s) \/ SizeConflict(s) \/ Truncated(s) \/ ChecksumBad(s) \/ s.badbmap
               \/ \E r \in RangeIdx(s) : RF(s, r) > RL(s, r)

\* unsynchronised data allowed on a block device
SyncBound(s) == Max2(7 * MiB, 6 * MiB + s.bsz)
\* data read but not yet written; batches are 1 MiB or one block if blocks are larger
FlightBound(s) == 8 * Max2(MiB, s.bsz)

\* ------------------------------------------------------------------- state
Start(s) == [ dst |-> s.old, size |-> s.oldsize, dirty |-> FALSE, uns |-> 0, infl |-> 0, rd |-> 0, wr |-> 0,
              wblk |-> 0, pct |-> 0, reports |-> 0, faults |-> {}, out |-> "run", runs |-> 1, imgwrites |-> 0, excl |-> TRUE ]

\* positions of the changed cells of an event
Changed(e) == 1..Len(e.c)
Upd(dst, e) == [c \in DOMAIN dst |-> IF \E k \in Changed(e) : e.c[k] = c THEN e.v[CHOOSE k \in Changed(e) : e.c[k] = c] ELSE dst[c]]

Apply(s, st, e) ==
  CASE e.op = "write"  -> [st EXCEPT !.dst = Upd(st.dst, e), !.size = e.sz, !.dirty = TRUE, !.uns = st.uns + e.n,
                                     !.imgwrites = st.imgwrites + e.n]
    [] e.op = "trunc"  -> [st EXCEPT !.dst = Upd(st.dst, e), !.size = e.sz, !.dirty = TRUE]
    [] e.op = "fsync"  -> [st EXCEPT !.dirty = FALSE, !.uns = 0]
    [] e.op = "fault"  -> [st EXCEPT !.faults = @ \cup {e.x}]
    [] e.op = "got"    -> [st EXCEPT !.infl = @ + e.n, !.rd = @ + e.n]
    [] e.op = "put"    -> [st EXCEPT !.infl = @ - e.n, !.wr = @ + e.n, !.wblk = @ + Ceil(e.n, s.bsz)]
    [] e.op = "pct"    -> [st EXCEPT !.pct = e.n, !.reports = @ + 1]
    [] e.op = "ret"    -> [st EXCEPT !.out = e.x]
    [] e.op = "again"  -> [st EXCEPT !.out = "run", !.runs = @ + 1, !.infl = 0, !.rd = 0, !.wr = 0, !.wblk = 0, !.pct = 0,
                                     !.reports = 0, !.faults = {}, !.dirty = FALSE, !.uns = 0, !.imgwrites = 0]
    [] e.op = "final"  -> [st EXCEPT !.dst = e.v, !.size = e.sz]
    [] OTHER           -> st

\* ------------------------------------------------------------ event clauses
If(cond, name) == IF cond THEN {name} ELSE {}

MappedCount(s) == IF s.hasbmap THEN s.bm.mapped ELSE IF s.known > 0 THEN Ceil(s.known, s.bsz) ELSE 0

WriteViol(s, st, e) ==
  \* e.out: bytes beyond the last cell; e.t: all touched cells
       If(s.hasbmap /\ (e.out > 0 \/ \E k \in 1..Len(e.t) : ~Mapped(s, e.t[k])), "C02_outside")
  \cup If(s.kind = "bdev" /\ st.uns + e.n > SyncBound(s), "C08_unsynced")
  \cup If(s.kind = "bdev" /\ e.x # "excl", "C19_notexclusive")
  \cup If(TooBig(s) /\ (s.known >= 0 \/ s.hasbmap), "C19_written")
  \cup If(s.badbmap, "C06_written")
  \cup If(~Geometry(s), "C06_written")
  \cup If(s.forbidden # "", s.forbidden \o "_written")
  \cup If(st.out = "ok", "C08_late")

TruncViol(s, st, e) ==
       If(st.out = "ok", "C08_late")

FlightViol(s, st, e) == If(st.infl + e.n > FlightBound(s), "C09_inflight")

\* a report is the share of the mapped blocks written so far (to within the rounding of one percent)
PctViol(s, st, e) ==
  LET m == MappedCount(s) IN
       If(e.n < st.pct, "C20_decrease")
  \cup If(e.n < 0 \/ e.n > 100, "C20_range")
  \cup If(m > 0 /\ ~CountMismatch(s) /\ LET want == (100 * st.wblk) \div m IN e.n < want - 1 \/ e.n > want + 1, "C20_share")

DataOk(s, dst) == \A c \in Wanted(s) : dst[c] = s.src[c]
HolesOk(s, dst) == \A c \in Cells(s) \ Wanted(s) : InImage(s, c) => dst[c] = 0
KeptOk(s, dst) == \A c \in Cells(s) : Mapped(s, c) \/ dst[c] = s.old[c]

OkViol(s, st, e) ==
  LET p == IF s.hasbmap THEN "C01" ELSE "C03" IN
       If(~DataOk(s, st.dst), p \o "_data")
  \cup If(~DataOk(s, st.dst) /\ s.isched, "C09_data")
  \cup If(s.kind = "reg" /\ st.size # TargetSize(s), p \o "_size")
  \cup If(s.kind = "reg" /\ s.fresh /\ ~HolesOk(s, st.dst), p \o "_holes")
  \cup If(s.hasbmap /\ s.kind = "bdev" /\ ~KeptOk(s, st.dst), "C02_kept")
  \cup If(ChecksumBad(s), "C04_accepted")
  \cup If(s.vary /\ s.hasbmap /\ ChecksumBad(s), "C25_accepted")
  \cup If(s.vary /\ s.hasbmap /\ (~DataOk(s, st.dst) \/ (s.kind = "bdev" /\ ~KeptOk(s, st.dst)) \/ (s.kind = "reg" /\ s.fresh /\ ~HolesOk(s, st.dst))), "C25_data")
  \cup If(Truncated(s), IF s.lossy THEN "C15_accepted" ELSE "C05_truncated")
  \cup If(CountMismatch(s), "C05_count")
  \cup If(SizeConflict(s), "C05_size")
  \cup If(~Geometry(s) \/ s.badbmap \/ (\E r \in RangeIdx(s) : RF(s, r) > RL(s, r)), "C06_accepted")
  \cup If(st.faults # {}, "C07_success")
  \cup If(st.faults # {} /\ s.isched, "C09_outcome")
  \cup If(s.sync /\ st.dirty, "C08_notsynced")
  \cup If(~s.sync /\ ~DataOk(s, st.dst), "C08_buffered")
  \cup If(TooBig(s), "C19_accepted")
  \cup If(st.reports > 0 /\ MappedCount(s) > 0 /\ st.pct # 100, "C20_not100")
  \cup If(s.wantpct /\ MappedCount(s) > 0 /\ st.reports = 0, "C20_none")
  \cup If(st.runs > 1 /\ ~(/\ \A c \in Cells(s) : (InImage(s, c) \/ s.hasbmap) => st.dst[c] = Target(s, c)
                           /\ s.kind = "reg" => st.size = TargetSize(s)), "C22_result")

FailViol(s, st, e) ==
  IF Sound(s) /\ st.faults = {} /\ ~s.mayfail
  THEN      If(s.hasbmap, "C01_refused") \cup If(~s.hasbmap, "C03_refused")
       \cup If(s.hasbmap /\ s.cssup /\ e.y = "checksum", "C04_refused")
       \cup If(s.isched, "C09_outcome")
       \cup If(st.runs > 1, "C22_refused")
       \cup If(s.wantpct, "C20_refused")
       \cup If(s.vary, "C25_refused")
       \cup If(s.guard # "", s.guard \o "_refused")
       \cup If(s.kind = "bdev", "C19_refused")
  ELSE {}

RetViol(s, st, e) ==
  CASE e.x = "ok"   -> OkViol(s, st, e)
    [] e.x = "fail" -> FailViol(s, st, e) \cup (IF e.y = "internal" THEN If(s.badbmap /\ s.documented, "C06_internal") ELSE {})
    [] e.x = "hang" -> {"C07_hang", "C09_hang"} \cup If(s.guard # "", s.guard \o "_hang")
    [] OTHER -> {}

\* after the process ended: the actual file against the state accumulated from the calls
FinalViol(s, st, e) ==
       If(s.hasbmap /\ \E c \in Cells(s) : ~Mapped(s, c) /\ e.v[c] # st.dst[c], "C02_hidden")
  \cup If(\E c \in Cells(s) : Mapped(s, c) /\ e.v[c] # st.dst[c],
          IF st.out = "ok" THEN IF s.hasbmap THEN "C01_hidden" ELSE "C03_hidden" ELSE "X_hidden")
  \cup If(s.hasbmap /\ s.kind = "bdev" /\ ~KeptOk(s, e.v), "C02_kept")
  \cup If(s.kind = "reg" /\ st.out = "ok" /\ e.sz # st.size, IF s.hasbmap THEN "C01_size" ELSE "C03_size")

\* the geometry the API announces: image size, block size, blocks, mapped blocks, mapped size, percentage * 100
GeoOk(s, g) == /\ g[1] = s.bm.isize /\ g[2] = s.bsz /\ g[3] = s.bm.blocks /\ g[4] = s.bm.mapped /\ g[5] = s.bm.mapped * s.bsz
               /\ LET p == (10000 * s.bm.mapped) \div s.bm.blocks IN p - 1 <= g[6] /\ g[6] <= p + 1

Violations(s, st, e) ==
  CASE e.op = "write" -> WriteViol(s, st, e)
    [] e.op = "trunc" -> TruncViol(s, st, e)
    [] e.op = "got"   -> FlightViol(s, st, e)
    [] e.op = "pct"   -> PctViol(s, st, e)
    [] e.op = "ret"   -> RetViol(s, st, e)
    [] e.op = "final" -> FinalViol(s, st, e)
    [] e.op = "geo" -> If(s.vary /\ s.hasbmap /\ ~GeoOk(s, e.v), "C25_geometry")
    [] e.op = "leftover" -> If(e.n > 0, "C22_leftover")
    [] e.op = "inputs"   -> If(e.n > 0, "C21_modified")
    [] OTHER -> {}

\* which antecedents a finished trace exercised (vacuity accounting)
Hits(s, st) ==
       If(Sound(s), "sound") \cup If(Sound(s) /\ st.out = "ok", "sound_ok")
  \cup If(ChecksumBad(s), "checksum_mismatch") \cup If(Truncated(s), "truncated") \cup If(CountMismatch(s), "count_mismatch")
  \cup If(SizeConflict(s), "size_conflict") \cup If(~Geometry(s), "geometry") \cup If(s.badbmap, "bad_bmap")
  \cup If(TooBig(s), "too_big") \cup If(st.faults # {}, "fault") \cup If(st.out = "ok", "ok") \cup If(st.out = "fail", "fail")
  \cup If(st.out = "killed", "killed") \cup If(st.runs > 1, "rerun") \cup If(st.reports > 0, "progress")
  \cup If(s.kind = "bdev", "device") \cup If(~s.hasbmap, "no_bmap") \cup If(s.isize % s.bsz # 0, "partial_block")
=============================================================================
