---------------------------- MODULE RepeatedCopy ----------------------------
(* A copy that fails and is repeated at once with the same image object: the *)
(* reader thread of the failed attempt and the new one share the position of *)
(* the image file, and - if the copy object is the same - the queue. The     *)
(* repeated copy must come to the same result as an undisturbed one.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NS,       \* numbers of batches of the image
          QLEN,     \* length of the queue
          BUG,      \* "none", "leftover" (the reader is not told to stop), "nojoin" (it is told, but not waited for), "nodrain"
          HIST      \* record the first attempt (generation of scenarios)

VARIABLES n,        \* batches of the image
          each,     \* the reader seeks before every batch (size unknown), not only once
          same,     \* the copy object is the same
          att,      \* current attempt
          pos,      \* position in the image (shared)
          q,        \* queue of each attempt
          rpc, rb, rd,  \* the two readers: control, batch number, data read
          stop,     \* reader told to stop
          wpc, cnt, fa, \* writer: control, batches written, the write that fails in the first attempt (0: none)
          dst, out, h
vars == <<n, each, same, att, pos, q, rpc, rb, rd, stop, wpc, cnt, fa, dst, out, h>>

A == {1, 2}
EOF == 0
Q(a) == IF same THEN att ELSE a   \* a reader looks the queue up in the copy object

Init == /\ n \in NS /\ each \in BOOLEAN /\ same \in BOOLEAN /\ fa \in 0..n
        /\ att = 1 /\ pos = 1 /\ q = [a \in A |-> <<>>] /\ rpc = [a \in A |-> IF a = 1 THEN "seek" ELSE "off"]
        /\ rb = [a \in A |-> 1] /\ rd = [a \in A |-> 0] /\ stop = [a \in A |-> FALSE] /\ wpc = "get" /\ cnt = 0
        /\ dst = [b \in 1..n |-> 0] /\ out = "run" /\ h = <<>>

Say(x) == h' = IF HIST /\ att = 1 THEN Append(h, x) ELSE h
Params == UNCHANGED <<n, each, same, fa>>
Reads == <<rpc, rb, rd, pos>>

Seek(a) == /\ rpc[a] = "seek"
           /\ IF stop[a] THEN rpc' = [rpc EXCEPT ![a] = "off"] /\ pos' = pos
              ELSE IF rb[a] > n /\ ~each THEN rpc' = [rpc EXCEPT ![a] = "end"] /\ pos' = pos
              ELSE rpc' = [rpc EXCEPT ![a] = "read"] /\ pos' = rb[a]
           /\ UNCHANGED <<rb, rd, att, q, stop, wpc, cnt, dst, out, h>> /\ Params

Read(a) == /\ rpc[a] = "read" /\ Say("R")
           /\ IF stop[a] THEN rpc' = [rpc EXCEPT ![a] = "off"] /\ UNCHANGED <<pos, rd>>
              ELSE IF pos > n THEN rpc' = [rpc EXCEPT ![a] = IF each THEN "end" ELSE "error"] /\ UNCHANGED <<pos, rd>>
              ELSE rd' = [rd EXCEPT ![a] = pos] /\ pos' = pos + 1 /\ rpc' = [rpc EXCEPT ![a] = "put"]
           /\ UNCHANGED <<rb, att, q, stop, wpc, cnt, dst, out>> /\ Params

Put(a) == /\ rpc[a] \in {"put", "end", "error"} /\ Len(q[Q(a)]) < QLEN
          /\ q' = [q EXCEPT ![Q(a)] = Append(@, CASE rpc[a] = "put" -> <<rb[a], rd[a]>> [] rpc[a] = "end" -> <<EOF, EOF>> [] OTHER -> <<-1, -1>>)]
          /\ rb' = [rb EXCEPT ![a] = @ + 1]
          /\ rpc' = [rpc EXCEPT ![a] = IF rpc[a] # "put" THEN "off" ELSE IF each THEN "seek" ELSE IF rb[a] = n THEN "end" ELSE "read"]
          /\ UNCHANGED <<rd, pos, att, stop, wpc, cnt, dst, out, h>> /\ Params

Get == /\ wpc = "get" /\ q[att] # <<>> /\ q' = [q EXCEPT ![att] = Tail(@)]
       /\ LET b == Head(q[att]) IN
            CASE b[1] = EOF -> /\ wpc' = IF cnt = n THEN "ok" ELSE "fail"
                               /\ UNCHANGED <<dst, cnt, h>>
              [] b[1] = -1 -> wpc' = "fail" /\ UNCHANGED <<dst, cnt, h>>
              [] OTHER -> IF att = 1 /\ cnt + 1 = fa THEN wpc' = "fail" /\ UNCHANGED <<dst, cnt>> /\ Say("W")
                          ELSE wpc' = "get" /\ dst' = [dst EXCEPT ![b[1]] = b[2]] /\ cnt' = cnt + 1 /\ Say("W")
       /\ UNCHANGED <<Reads, att, stop, out>> /\ Params

\* the attempt is over: stop the reader, empty the queue, wait for the reader
End == /\ wpc \in {"ok", "fail"} /\ wpc' = "drain" /\ out' = wpc
       /\ stop' = IF BUG = "leftover" THEN stop ELSE [stop EXCEPT ![att] = TRUE]
       /\ UNCHANGED <<Reads, att, q, cnt, dst, h>> /\ Params
Drain == /\ wpc = "drain"
         /\ IF q[att] = <<>> \/ BUG \in {"leftover", "nodrain"} THEN wpc' = "join" /\ q' = q ELSE wpc' = "drain" /\ q' = [q EXCEPT ![att] = Tail(@)]
         /\ UNCHANGED <<Reads, att, stop, cnt, dst, out, h>> /\ Params
Join == /\ wpc = "join" /\ (rpc[att] = "off" \/ BUG \in {"leftover", "nojoin"}) /\ wpc' = "ended"
        /\ UNCHANGED <<Reads, att, q, stop, cnt, dst, out, h>> /\ Params
Again == /\ wpc = "ended" /\ att = 1 /\ att' = 2 /\ wpc' = "get" /\ cnt' = 0 /\ out' = "run"
         /\ rpc' = [rpc EXCEPT ![2] = "seek"]
         /\ UNCHANGED <<rb, rd, pos, q, stop, dst, h>> /\ Params

Reader(a) == Seek(a) \/ Read(a) \/ Put(a)
Writer == Get \/ End \/ Drain \/ Join \/ Again
Next == (\E a \in A : Reader(a)) \/ Writer
Spec == Init /\ [][Next]_vars /\ \A a \in A : WF_vars(Reader(a)) /\ WF_vars(Writer)

Outcome == wpc = "drain" => (out = "ok" <=> (att = 2 \/ fa = 0))
Result == (wpc = "drain" /\ out = "ok") => \A b \in 1..n : dst[b] = b
\* when the copy has returned, nobody uses the image any more
Quiet == wpc = "ended" => \A a \in A : rpc[a] = "off"
Ends == <>(wpc = "ended" /\ att = 2)

Report == (HIST /\ wpc = "ended" /\ att = 1) =>
             PrintT("SCENARIO " \o ToJson([n |-> n, each |-> each, same |-> same, fa |-> fa, h |-> h]))
Bounded == ~(HIST /\ att = 2)
=============================================================================
