---------------------------- MODULE CopyPipeline ----------------------------
(* The copy engine as it is built: a reader thread walks the block ranges,   *)
(* splits them into batches, reads, hashes and queues them; the writer takes *)
(* batches from the bounded queue, seeks, synchronises at the watermark,     *)
(* writes; at the end it checks the count, sets the size, flushes and syncs. *)
(* Any operation may fail; the process may be killed between any two steps.  *)
(* Constants are the real ones (1 MiB batches, queue of 6, 6 MiB watermark). *)
(*                                                                           *)
(* Every step announces the observable event `ev` it produces. Refines says  *)
(* that every step is a step of CopyContract without violated clauses.       *)
EXTENDS CopyContract, TLC, Json

CONSTANTS Scenarios,  \* set of scenario parameters, see Mk
          QLEN,       \* length of the batch queue
          BATCH,      \* bytes per batch
          WATERMARK,  \* bytes between synchronisations of a block device
          FAULTS,     \* how many operations may fail (0 or 1)
          KILLS,      \* how many times the process may be killed and restarted
          BUG,        \* "none", or the name of a deliberate mistake (vacuity guard)
          HIST        \* record the order of reads and writes (trace generation only)

(* Parameters: nb blocks of size bsz, the last one only half full if tail=1; *)
(* map: set of mapped blocks ({-1}: no bmap), joined into maximal ranges or  *)
(* single blocks (split); miss: blocks missing at the end (-1: a quarter);    *)
(* bad: block with other contents than the checksums were made for (-1 none);*)
(* zeros: blocks of the image that contain zeros; cnt: error in the count    *)
RECURSIVE RangesOf(_, _, _, _)
RangesOf(map, b, nb, split) ==
  IF b >= nb THEN <<>>
  ELSE IF b \notin map THEN RangesOf(map, b + 1, nb, split)
  ELSE LET e == IF split THEN b
                ELSE CHOOSE x \in b..(nb - 1) : (\A y \in b..x : y \in map) /\ (x + 1) \notin map
       IN <<<<b, e, 1>>>> \o RangesOf(map, e + 1, nb, split)

CellsOf(p) == [k \in 1..(p.nb + p.tail) |-> IF k <= p.nb THEN <<k - 1, 1>> ELSE <<p.nb - 1, 0>>]
SizeOf(p) == p.nb * p.bsz - (IF p.tail = 1 THEN p.bsz \div 2 ELSE 0)

Mk(p) ==
  LET cells == CellsOf(p)
      nc == p.nb + p.tail
      tok(k) == IF cells[k][2] = 0 \/ (k - 1) \in p.zeros THEN 0 ELSE k
      rng == IF p.map = {-1} THEN <<>> ELSE RangesOf(p.map, 0, p.nb, p.split)
      isz == SizeOf(p)
  IN [ id |-> "m", kind |-> p.kind, bsz |-> p.bsz, isize |-> isz, srclen |-> IF p.miss = 0 THEN isz ELSE IF p.miss = -1 THEN isz - p.bsz \div 4 ELSE (p.nb - p.miss) * p.bsz,
       hasbmap |-> p.map # {-1}, known |-> IF p.known THEN isz ELSE -1,
       bm |-> [isize |-> isz, blocks |-> p.nb, mapped |-> (IF p.map = {-1} THEN 0 ELSE Cardinality(p.map)) + p.cnt, ranges |-> rng],
       cssup |-> TRUE, verify |-> p.verify, sync |-> p.sync, cells |-> cells,
       orig |-> [k \in 1..nc |-> tok(k)],
       src |-> [k \in 1..nc |-> IF cells[k][2] = 0 THEN 0 ELSE IF k - 1 = p.bad THEN 2000 + k ELSE tok(k)],
       old |-> [k \in 1..nc |-> IF p.kind = "bdev" THEN 1000 + k ELSE 0], oldsize |-> IF p.kind = "bdev" THEN p.nb * p.bsz ELSE 0,
       cap |-> p.nb * p.bsz, badbmap |-> FALSE, documented |-> FALSE, vary |-> FALSE, mayfail |-> FALSE, isched |-> TRUE,
       wantpct |-> TRUE, lossy |-> FALSE, forbidden |-> "", guard |-> "", fresh |-> TRUE ]

VARIABLES scn, st, ev,
          rpc, ri, rb, rbuf, rbad,     \* reader: control, range index, next block, batch in hand, hash mismatch so far
          q,                           \* the batch queue
          wpc, wbuf, wcnt, wbytes, wlast, \* writer: control, batch in hand, blocks written, bytes written, blocks at last sync
          err, nf, nk, h
vars == <<scn, st, ev, rpc, ri, rb, rbuf, rbad, q, wpc, wbuf, wcnt, wbytes, wlast, err, nf, nk, h>>

NoEv == [op |-> "", c |-> <<>>, v |-> <<>>, t |-> <<>>, n |-> 0, x |-> "", y |-> "", sz |-> 0, out |-> 0]
Tau == ev' = NoEv /\ st' = st
Emit(e) == ev' = e /\ st' = Apply(scn, st, e)
Note(a) == h' = IF HIST THEN Append(h, a) ELSE h

BB == Max2(1, BATCH \div scn.bsz)                      \* blocks per batch
WM == IF scn.kind = "bdev" THEN WATERMARK \div scn.bsz ELSE 0
Known == scn.hasbmap \/ scn.known >= 0
NBlocks == IF scn.hasbmap THEN scn.bm.blocks ELSE IF scn.known >= 0 THEN Ceil(scn.known, scn.bsz) ELSE 0
ImgSize == IF scn.hasbmap THEN scn.bm.isize ELSE scn.known
NRanges == IF scn.hasbmap THEN Len(scn.bm.ranges) ELSE IF Known THEN 1 ELSE 1000
First(r) == IF scn.hasbmap THEN RF(scn, r) ELSE IF Known THEN 0 ELSE (r - 1) * BB
Last(r) == IF scn.hasbmap THEN RL(scn, r) ELSE IF Known THEN NBlocks - 1 ELSE r * BB - 1
HasSum(r) == scn.hasbmap /\ scn.verify /\ scn.cssup /\ RC(scn, r) # 0

ByteCells(a, b) == {c \in Cells(scn) : LET lo == Blk(scn, c) * scn.bsz + (IF InImage(scn, c) THEN 0 ELSE scn.bsz \div 2)
                                       IN lo >= a /\ lo < b /\ InImage(scn, c)}

\* the scenario after a restart: the destination is opened again (a regular file is truncated by that)
Reset == /\ rpc' = "range" /\ ri' = 1 /\ rb' = 0 /\ rbuf' = <<>> /\ rbad' = FALSE /\ q' = <<>>
         /\ wpc' = "trunc" /\ wbuf' = <<>> /\ wcnt' = 0 /\ wbytes' = 0 /\ wlast' = 0 /\ err' = "none"

Init == /\ \E p \in Scenarios : scn = Mk(p)
        /\ st = Start(scn) /\ ev = NoEv
        /\ rpc = "range" /\ ri = 1 /\ rb = 0 /\ rbuf = <<>> /\ rbad = FALSE /\ q = <<>>
        /\ wpc = "trunc" /\ wbuf = <<>> /\ wcnt = 0 /\ wbytes = 0 /\ wlast = 0 /\ err = "none" /\ nf = 0 /\ nk = 0 /\ h = <<>>

wvars == <<wpc, wbuf, wcnt, wbytes, wlast, err>>
rvars == <<rpc, ri, rb, rbuf, rbad>>
Running == st.out = "run"

(* ------------------------------- reader ---------------------------------- *)
RRange == /\ Running /\ rpc = "range" /\ Tau /\ rbad' = FALSE
          /\ IF ri > NRanges \/ (~Known /\ FALSE) THEN rpc' = "end" /\ UNCHANGED <<ri, rb, rbuf>>
             ELSE rpc' = "read" /\ rb' = First(ri) /\ UNCHANGED <<ri, rbuf>>
          /\ UNCHANGED <<scn, q, wvars, nf, nk, h>>

BatchEnd == Min2(Last(ri), rb + BB - 1)
Avail == Max2(0, Min2((BatchEnd + 1) * scn.bsz, scn.srclen) - rb * scn.bsz)
Expected == Min2((BatchEnd + 1) * scn.bsz, ImgSize) - rb * scn.bsz

RRead == /\ Running /\ rpc = "read"
         /\ Emit([NoEv EXCEPT !.op = "got", !.n = Avail])
         /\ Note("R")
         /\ IF Known /\ Avail < Expected /\ BUG # "shortread" THEN rpc' = "error" /\ UNCHANGED <<rbuf, rbad>>
            ELSE IF Avail = 0 THEN rpc' = "end" /\ UNCHANGED <<rbuf, rbad>>
            ELSE /\ rbuf' = <<rb, Avail>>
                 /\ rbad' = (rbad \/ \E c \in ByteCells(rb * scn.bsz, rb * scn.bsz + Avail) : scn.src[c] # scn.orig[c])
                 /\ rpc' = "put"
         /\ UNCHANGED <<scn, ri, rb, q, wvars, nf, nk>>

RPut == /\ Running /\ rpc = "put" /\ (Len(q) < QLEN \/ BUG = "unbounded") /\ Tau
        /\ q' = Append(q, rbuf) /\ rbuf' = <<>>
        /\ LET nxt == rb + Ceil(rbuf[2], scn.bsz) IN
             IF nxt <= Last(ri) THEN rb' = nxt /\ rpc' = "read" /\ ri' = ri
             ELSE IF HasSum(ri) /\ rbad /\ BUG # "nosum" THEN rpc' = "error" /\ UNCHANGED <<rb, ri>>
             ELSE rpc' = "range" /\ ri' = ri + 1 /\ rb' = rb
        /\ UNCHANGED <<scn, rbad, wvars, nf, nk, h>>

RErr == /\ Running /\ rpc = "error" /\ Len(q) < QLEN /\ Tau
        /\ q' = Append(q, <<-1, 0>>) /\ rpc' = "end"
        /\ UNCHANGED <<scn, ri, rb, rbuf, rbad, wvars, nf, nk, h>>

REnd == /\ Running /\ rpc = "end" /\ Len(q) < QLEN /\ Tau
        /\ q' = Append(q, <<-2, 0>>) /\ rpc' = "done"
        /\ UNCHANGED <<scn, ri, rb, rbuf, rbad, wvars, nf, nk, h>>

RFault == /\ Running /\ rpc = "read" /\ nf < FAULTS
          /\ Emit([NoEv EXCEPT !.op = "fault", !.x = "read"])
          /\ rpc' = (IF BUG = "ignoreread" THEN "end" ELSE "error") /\ nf' = nf + 1 /\ Note("F")
          /\ UNCHANGED <<scn, ri, rb, rbuf, rbad, q, wvars, nk>>

(* ------------------------------- writer ---------------------------------- *)
Resized(n) == [NoEv EXCEPT !.op = "trunc", !.sz = n]
WTrunc == /\ Running /\ wpc = "trunc" /\ wpc' = "get"
          /\ IF Known /\ scn.kind = "reg" THEN Emit(Resized(ImgSize)) ELSE Tau
          /\ UNCHANGED <<scn, rvars, q, wbuf, wcnt, wbytes, wlast, err, nf, nk, h>>

WGet == /\ Running /\ wpc = "get" /\ q # <<>> /\ Tau /\ q' = Tail(q)
        /\ CASE Head(q)[1] = -2 -> wpc' = "count" /\ UNCHANGED <<wbuf, err>>
             [] Head(q)[1] = -1 -> wpc' = "fail" /\ err' = "reader" /\ UNCHANGED wbuf
             [] OTHER -> /\ wbuf' = Head(q) /\ UNCHANGED err
                         /\ wpc' = IF WM > 0 /\ wcnt >= wlast + WM THEN "sync" ELSE "write"
        /\ UNCHANGED <<scn, rvars, wcnt, wbytes, wlast, nf, nk, h>>

WSync == /\ Running /\ wpc = "sync" /\ wlast' = wcnt /\ wpc' = "write"
         /\ IF BUG = "nowatermark" THEN Tau ELSE Emit([NoEv EXCEPT !.op = "fsync"])
         /\ UNCHANGED <<scn, rvars, q, wbuf, wcnt, wbytes, err, nf, nk, h>>

SetSeq(S) == LET RECURSIVE f(_)
                 f(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o f(T \ {m})
             IN f(S)

WWrite == /\ Running /\ wpc = "write"
          /\ LET a == (wbuf[1] + (IF BUG = "offset" THEN 1 ELSE 0)) * scn.bsz
                 tgt == SetSeq(ByteCells(a, a + wbuf[2]))
                 from == SetSeq(ByteCells(wbuf[1] * scn.bsz, wbuf[1] * scn.bsz + wbuf[2]))
             IN Emit([NoEv EXCEPT !.op = "write", !.c = tgt, !.t = tgt, !.v = [k \in DOMAIN tgt |-> scn.src[from[k]]],
                                  !.n = wbuf[2], !.x = "excl", !.sz = Max2(st.size, a + wbuf[2])])
          /\ wcnt' = wcnt + Ceil(wbuf[2], scn.bsz) /\ wbytes' = wbytes + wbuf[2] /\ Note("W") /\ wpc' = "put"
          /\ UNCHANGED <<scn, rvars, q, wbuf, wlast, err, nf, nk>>

WPut == /\ Running /\ wpc = "put" /\ wpc' = "pct"
        /\ Emit([NoEv EXCEPT !.op = "put", !.n = wbuf[2]])
        /\ UNCHANGED <<scn, rvars, q, wbuf, wcnt, wbytes, wlast, err, nf, nk, h>>

WPct == /\ Running /\ wpc = "pct"
        /\ LET m == IF scn.hasbmap THEN scn.bm.mapped ELSE NBlocks IN
             IF m > 0 /\ wcnt > m THEN Tau /\ wpc' = "fail"   \* more blocks than the bmap announces
             ELSE /\ wpc' = "get"
                  /\ IF m > 0 THEN Emit([NoEv EXCEPT !.op = "pct", !.n = (100 * wcnt) \div m]) ELSE Tau
        /\ UNCHANGED <<scn, rvars, q, wbuf, wcnt, wbytes, wlast, err, nf, nk, h>>

WCount == /\ Running /\ wpc = "count" /\ Tau
          /\ LET m == IF scn.hasbmap THEN scn.bm.mapped ELSE IF Known THEN NBlocks ELSE Ceil(wbytes, scn.bsz)
             IN wpc' = IF wcnt # m /\ BUG # "nocount" THEN "fail" ELSE "size"
          /\ UNCHANGED <<scn, rvars, q, wbuf, wcnt, wbytes, wlast, err, nf, nk, h>>

WSize == /\ Running /\ wpc = "size" /\ wpc' = "flush"
         /\ IF scn.kind = "reg" THEN Emit(Resized(IF Known THEN ImgSize ELSE wbytes)) ELSE Tau
         /\ UNCHANGED <<scn, rvars, q, wbuf, wcnt, wbytes, wlast, err, nf, nk, h>>

WFlush == /\ Running /\ wpc = "flush" /\ wpc' = "ok"
          /\ IF scn.sync /\ BUG # "nosync" THEN Emit([NoEv EXCEPT !.op = "fsync"]) ELSE Tau
          /\ UNCHANGED <<scn, rvars, q, wbuf, wcnt, wbytes, wlast, err, nf, nk, h>>

WFault == /\ Running /\ nf < FAULTS /\ nf' = nf + 1
          /\ \/ (wpc = "trunc" /\ Known /\ scn.kind = "reg")
             \/ wpc \in {"sync", "write"}
             \/ (wpc = "size" /\ scn.kind = "reg")
             \/ (wpc = "flush" /\ scn.sync)
          /\ Emit([NoEv EXCEPT !.op = "fault", !.x = wpc])
          /\ wpc' = IF BUG = "ignoresync" /\ wpc = "flush" THEN "ok" ELSE "fail"
          /\ Note("F")
          /\ UNCHANGED <<scn, rvars, q, wbuf, wcnt, wbytes, wlast, err, nk>>

WRet == /\ Running /\ wpc \in {"ok", "fail"}
        /\ Emit([NoEv EXCEPT !.op = "ret", !.x = wpc, !.y = "error"]) /\ wpc' = "done"
        /\ UNCHANGED <<scn, rvars, q, wbuf, wcnt, wbytes, wlast, err, nf, nk, h>>

(* ------------------------------ kill / rerun ----------------------------- *)
Kill == /\ Running /\ nk < KILLS /\ nk' = nk + 1
        /\ Emit([NoEv EXCEPT !.op = "ret", !.x = "killed"])
        /\ UNCHANGED <<scn, rvars, q, wvars, nf, h>>

\* after a kill or a failure the same copy is run again; opening truncates a regular file
Again == /\ st.out \in {"killed", "fail"} /\ st.runs <= KILLS /\ nk > 0
         /\ LET z == [k \in Cells(scn) |-> IF scn.kind = "reg" THEN 0 ELSE st.dst[k]] IN
              /\ ev' = [NoEv EXCEPT !.op = "again"]
              /\ st' = [Apply(scn, st, [NoEv EXCEPT !.op = "again"]) EXCEPT !.dst = z, !.size = IF scn.kind = "reg" THEN 0 ELSE st.size]
         /\ Reset /\ h' = <<>>
         /\ UNCHANGED <<scn, nf, nk>>

Reader == RRange \/ RRead \/ RPut \/ RErr \/ REnd \/ RFault
Writer == WTrunc \/ WGet \/ WSync \/ WWrite \/ WPut \/ WPct \/ WCount \/ WSize \/ WFlush \/ WFault \/ WRet
Next == Reader \/ Writer \/ Kill \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Reader) /\ WF_vars(Writer) /\ WF_vars(Again)

(* ------------------------------ properties ------------------------------- *)
Refines == [][ev' # ev \/ st' # st => Violations(scn, st, ev') = {}]_vars
\* the same without liveness bookkeeping: no clause is broken by any step
QueueBound == Len(q) <= QLEN
FlightOK == st.infl <= FlightBound(scn)
HopelessFails == st.out = "ok" => ~Hopeless(scn)
Terminates == <>(st.out # "run")
\* the outcome does not depend on the interleaving
Outcome == (st.out \in {"ok", "fail"} /\ nf = 0) => (st.out = "ok" <=> ~Hopeless(scn))
Result == (st.out = "ok") => \A c \in Cells(scn) : (InImage(scn, c) \/ scn.hasbmap) => st.dst[c] = Target(scn, c)

\* generation: print the schedule of every finished behaviour
Report == (HIST /\ wpc = "done" /\ st.out # "run") =>
            PrintT("SCHED " \o ToJson([scn |-> [nb |-> NBlocks, kind |-> scn.kind], id |-> scn.id, h |-> h, out |-> st.out, par |-> scn]))
=============================================================================
