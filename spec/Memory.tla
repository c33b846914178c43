------------------------------- MODULE Memory -------------------------------
(* Where the data of an image are while it is copied or described: how much  *)
(* of it is held at a time, and how often it is read.  The image consists of *)
(* N units, `mapped` of them are mapped (all, in a copy without a bmap).     *)
(* via "file": the image can be positioned (a local uncompressed file).      *)
(* via "stream": it arrives in order through a pipe from a helper program    *)
(* (decompressor, ssh) or a connection, which a feeding thread supplies in   *)
(* pieces of F units; unmapped parts have to be read and dropped.            *)
(* who "copy": the reader collects batches of B units, checks the sums of    *)
(* whole ranges incrementally, queues at most Q batches for the writer.      *)
(* who "create": the reader hashes pieces of B units of the mapped ranges.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, F, P, B, Q, BUG
ASSUME N > 0 /\ F > 0 /\ P > 0 /\ B > 0 /\ Q > 0
VARIABLES via, who, mapped,
  fed,    \* units the feeding thread has taken from the source
  hand,   \* units in its hands
  pipe,   \* units in the pipe (not in the memory of the process)
  pos,    \* position of the reader
  got,    \* units of the current read request which have arrived
  kept,   \* units the reader keeps besides
  queue,  \* batches
  wr,     \* units in the hands of the writer
  old,    \* units kept though they are written
  written,
  reads   \* how often each unit of the image was read (file)
vars == <<via, who, mapped, fed, hand, pipe, pos, got, kept, queue, wr, old, written, reads>>
Units == 0..N - 1
Min(a, b) == IF a < b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Init == /\ via \in {"file", "stream"} /\ who \in {"copy", "create"} /\ (who = "create" => via = "file")
        /\ mapped \in SUBSET Units
        /\ fed = 0 /\ hand = 0 /\ pipe = 0 /\ pos = 0 /\ got = 0 /\ kept = 0 /\ queue = <<>> /\ wr = 0 /\ old = 0 /\ written = {}
        /\ reads = [u \in Units |-> 0]
Rest == {u \in mapped : u >= pos}
Target == SetMin(Rest)
Skipping == Rest # {} /\ Target > pos /\ (via = "stream" \/ BUG = "readgaps")
RangeEnd == CHOOSE e \in pos..N : (e = N \/ e \notin mapped) /\ \A u \in pos..e - 1 : u \in mapped
Want == IF Skipping THEN IF BUG = "skipwhole" THEN Target - pos ELSE Min(B, Target - pos)
        ELSE IF BUG = "rangewhole" THEN RangeEnd - pos ELSE Min(B, RangeEnd - pos)
FeedTake == /\ via = "stream" /\ hand = 0 /\ fed < N
            /\ hand' = (IF BUG = "feedall" THEN N - fed ELSE Min(F, N - fed)) /\ fed' = fed + hand'
            /\ UNCHANGED <<via, who, mapped, pipe, pos, got, kept, queue, wr, old, written, reads>>
FeedGive == /\ hand > 0 /\ (pipe < P \/ BUG = "nopipe")
            /\ hand' = hand - 1 /\ pipe' = pipe + 1
            /\ UNCHANGED <<via, who, mapped, fed, pos, got, kept, queue, wr, old, written, reads>>
Seek == /\ Rest # {} /\ via = "file" /\ Target > pos /\ ~Skipping /\ got = 0
        /\ pos' = Target
        /\ UNCHANGED <<via, who, mapped, fed, hand, pipe, got, kept, queue, wr, old, written, reads>>
CanRead == Rest # {} /\ (Skipping \/ Target = pos) /\ got < Want
Read == /\ CanRead
        /\ IF via = "stream" THEN pipe > 0 /\ pipe' = pipe - 1 /\ reads' = reads
           ELSE UNCHANGED pipe /\ reads' = [reads EXCEPT ![pos + got] = @ + (IF BUG = "again" THEN 3 ELSE 1)]
        /\ got' = got + 1
        /\ UNCHANGED <<via, who, mapped, fed, hand, pos, kept, queue, wr, old, written>>
Whole == Rest # {} /\ (Skipping \/ Target = pos) /\ got = Want
Drop == /\ Whole /\ (Skipping \/ who = "create")
        /\ pos' = pos + got /\ got' = 0
        /\ kept' = IF BUG = "keepread" /\ ~Skipping THEN kept + got ELSE kept
        /\ UNCHANGED <<via, who, mapped, fed, hand, pipe, queue, wr, old, written, reads>>
Put == /\ Whole /\ ~Skipping /\ who = "copy" /\ (Len(queue) < Q \/ BUG = "unbounded")
       /\ queue' = Append(queue, got) /\ pos' = pos + got /\ got' = 0
       /\ kept' = IF BUG = "keeprange" THEN IF pos + got \in mapped THEN kept + got ELSE 0 ELSE kept
       /\ UNCHANGED <<via, who, mapped, fed, hand, pipe, wr, old, written, reads>>
Take == /\ queue # <<>> /\ wr = 0
        /\ wr' = Head(queue) /\ queue' = Tail(queue)
        /\ UNCHANGED <<via, who, mapped, fed, hand, pipe, pos, got, kept, old, written, reads>>
Write == /\ wr > 0
         /\ wr' = 0
         /\ written' = written \cup (LET todo == mapped \ written
                                     IN  {u \in todo : Cardinality({v \in todo : v < u}) < wr})
         /\ old' = IF BUG = "keepwritten" THEN old + wr ELSE old
         /\ UNCHANGED <<via, who, mapped, fed, hand, pipe, pos, got, kept, queue, reads>>
Feeding == FeedTake \/ FeedGive
Reading == Seek \/ Read \/ Drop \/ Put
Writing == Take \/ Write
Next == Feeding \/ Reading \/ Writing
Spec == Init /\ [][Next]_vars /\ WF_vars(Feeding) /\ WF_vars(Reading) /\ WF_vars(Writing)
\* What is demanded: a bound of what is held which does not mention N.
Held == hand + got + kept + Sum(queue) + wr + old
Bounded == Held <= F + B + Q * B + B
\* The mapped units of a file are read, the others are not.
Work == via = "file" => \A u \in Units : reads[u] <= IF u \in mapped THEN 2 ELSE 0
Finished == Rest = {} /\ queue = <<>> /\ wr = 0
Complete == Finished => \A u \in mapped : (who = "copy" => u \in written) /\ (via = "file" => reads[u] > 0)
Ends == <>Finished
=============================================================================
