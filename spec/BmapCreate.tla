----------------------------- MODULE BmapCreate -----------------------------
(* How a bmap file comes into being: header with placeholders, one element   *)
(* per range, closing tags, then the placeholders are patched, the checksum  *)
(* of the file itself last. The writes go through a user-space buffer; a     *)
(* crash (or a failure of the layout query or of a read) may happen at any   *)
(* point and leaves what had been flushed, the last write possibly torn.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NR, BUG       \* ranges of the image

\* parts of the file and their possible values
Header == <<"header", 0>>
Count1 == <<"count1", 0>>       \* mapped size and percentage (in a comment)
Count2 == <<"count2", 0>>       \* number of mapped blocks
SumF   == <<"sum", 0>>
Tail_  == <<"tail", 0>>
Range(i) == <<"range", i>>
Fields == {Header, Count1, Count2, SumF, Tail_} \cup {Range(i) : i \in 1..NR}
Absent == <<"absent">>
Torn   == <<"torn">>
Blank  == <<"blank">>
Zeros  == <<"zeros">>
Good   == <<"good">>
Num(n) == <<"number", n>>

VARIABLES ops,          \* writes issued so far: <<part, value>>
          nflush,       \* how many of them are in the file
          torn,         \* the next one is in the file partially
          pc, k         \* what the program does next
vars == <<ops, nflush, torn, pc, k>>

Empty == [f \in Fields |-> Absent]
RECURSIVE Fold(_, _)
Fold(file, os) == IF os = <<>> THEN file ELSE Fold([file EXCEPT ![Head(os)[1]] = Head(os)[2]], Tail(os))
Content(n) == Fold(Empty, SubSeq(ops, 1, n))
Disk == LET d == Content(nflush) IN IF torn THEN [d EXCEPT ![ops[nflush + 1][1]] = Torn] ELSE d

\* the checksum of a file: of its content with zeros in place of the checksum; collision-free
Sum(file) == <<"sum", [f \in Fields \ {SumF} |-> file[f]]>>

\* what the copy accepts: all elements there, the numbers readable, the checksum right
Readable(file) == /\ \A f \in {Header, Count1, SumF, Tail_} : file[f] # Absent
                  /\ file[Header] # Torn /\ file[Tail_] # Torn
                  /\ file[Count2] \notin {Absent, Blank}
                  /\ \A i \in 1..NR : file[Range(i)] # Torn
Accepted(file) == Readable(file) /\ (file[SumF] = Sum(file) \/ (BUG = "skipzero" /\ file[SumF] = Zeros))
Complete(file) == /\ file[Count2] = Num(NR) /\ file[Count1] = Good
                  /\ \A i \in 1..NR : file[Range(i)] = Good

Init == ops = <<>> /\ nflush = 0 /\ torn = FALSE /\ pc = "start" /\ k = 1

Write(w) == ops' = ops \o w
Checkpoint == LET f == [Fold(Content(Len(ops)), <<<<Range(k), Good>>>>) EXCEPT ![Tail_] = Good, ![Count2] = Num(k)]
              IN <<<<Tail_, Good>>, <<Count2, Num(k)>>, <<SumF, Sum(f)>>>>
Start == pc = "start" /\ pc' = "ranges" /\ UNCHANGED k
         /\ Write(<<<<Header, Good>>, <<Count1, Blank>>, <<Count2, Blank>>, <<SumF, Zeros>>>>)
OneRange == pc = "ranges" /\ k <= NR /\ k' = k + 1 /\ pc' = "ranges"
            /\ Write(<<<<Range(k), Good>>>> \o (IF BUG = "checkpoint" THEN Checkpoint ELSE <<>>))
End == pc = "ranges" /\ k > NR /\ pc' = "patch" /\ UNCHANGED k /\ Write(<<<<Tail_, Good>>>>)
Patch == pc = "patch" /\ pc' = "sum" /\ UNCHANGED k
         /\ Write((IF BUG = "latecount" THEN <<>> ELSE <<<<Count1, Good>>>>) \o <<<<Count2, Num(NR)>>>>)
PatchSum == pc = "sum" /\ pc' = (IF BUG = "latecount" THEN "late" ELSE "flush") /\ UNCHANGED k
            /\ Write(<<<<SumF, Sum(Content(Len(ops)))>>>>)
Late == pc = "late" /\ pc' = "flush" /\ UNCHANGED k /\ Write(<<<<Count1, Good>>>>)
Done == pc = "flush" /\ nflush = Len(ops) /\ pc' = "done" /\ UNCHANGED <<k, ops>>
Prog == ~torn /\ (Start \/ OneRange \/ End \/ Patch \/ PatchSum \/ Late \/ Done) /\ UNCHANGED <<nflush, torn>>

Flush == ~torn /\ nflush < Len(ops) /\ nflush' = nflush + 1 /\ UNCHANGED <<ops, torn, pc, k>>
Crash == /\ pc \notin {"done", "dead", "failed"} /\ pc' = "dead" /\ UNCHANGED <<ops, nflush, k>>
         /\ torn' \in (IF nflush < Len(ops) THEN BOOLEAN ELSE {FALSE})
\* the layout query or a read fails: what is pending is written when the file object is closed
Fail == pc = "ranges" /\ pc' = "failed" /\ UNCHANGED <<ops, nflush, k, torn>>

Next == Prog \/ Flush \/ Crash \/ Fail
Spec == Init /\ [][Next]_vars

NeverAcceptedHalf == Accepted(Disk) => Complete(Disk)
DoneIsGood == pc = "done" => Accepted(Disk) /\ Complete(Disk)
FailedIsNotAccepted == pc = "failed" => ~Accepted(Disk)
=============================================================================
