------------------------------ MODULE Together ------------------------------
(* Several pieces of work in one process (C28): copies with a reader and a   *)
(* writer each, and readers which go step by step (creation of a bmap, file  *)
(* map queries, reading an image). They run                                  *)
(*   "together"  each on its own image, in any interleaving                  *)
(*   "object"    one after another with the same image object                *)
(*   "path"      one after another with the same file names, whose contents  *)
(*               have changed in between                                     *)
(* Each comes to the result it would have alone, whether the others succeed  *)
(* or fail. State that belongs to the module or class instead of the object  *)
(* is what breaks this; BUG makes one part shared.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS K,        \* number of pieces of work
          NS,       \* how many steps they have
          MODES, KINDS, QLEN, BUG, HIST

VARIABLES mode, kind, n, fa,
          now,      \* the contents the names stand for
          img,      \* what each opened
          pos, q, rpc, rb, rd, stop, wpc, cnt, dst, out, h
vars == <<mode, kind, n, fa, now, img, pos, q, rpc, rb, rd, stop, wpc, cnt, dst, out, h>>
T == 1..K
Params == UNCHANGED <<mode, kind, n, fa>>
S(t, what) == IF BUG = what THEN 1 ELSE t
P(t) == IF mode = "object" THEN 1 ELSE S(t, "pos")
Q(t) == S(t, "queue")
B(t) == S(t, "buffer")
E(t) == S(t, "stop")
C(t) == S(t, "count")

Init == /\ mode \in MODES /\ n \in [T -> NS] /\ kind \in [T -> KINDS]
        /\ fa \in [T -> 0..2] /\ \A t \in T : fa[t] <= n[t] /\ (kind[t] = "steps" => fa[t] = 0)
        /\ mode = "object" => \A t \in T : n[t] = n[1] /\ kind[t] = "copy"
        /\ now = 1 /\ img = [t \in T |-> 0] /\ pos = [t \in T |-> 1] /\ q = [t \in T |-> <<>>] /\ rpc = [t \in T |-> "off"]
        /\ rb = [t \in T |-> 1] /\ rd = [t \in T |-> 0] /\ stop = [t \in T |-> FALSE] /\ wpc = [t \in T |-> "new"]
        /\ cnt = [t \in T |-> 0] /\ dst = [t \in T |-> [b \in 1..n[t] |-> 0]] /\ out = [t \in T |-> "run"] /\ h = <<>>

Say(t, x) == h' = IF HIST THEN Append(h, <<t, x>>) ELSE h
Turn(t) == IF mode = "together" \/ t = 1 THEN TRUE ELSE wpc[t - 1] = "ended"
Value(t, at) == 100 * img[t] + at

\* the objects are made; what was read or cached before must not matter
New(t) == /\ wpc[t] = "new" /\ Turn(t) /\ Say(t, "C")
          /\ now' = (IF mode = "path" THEN t ELSE now)
          /\ img' = [img EXCEPT ![t] = IF mode = "object" \/ (BUG = "stale" /\ mode = "path") THEN 1 ELSE t]
          /\ wpc' = [wpc EXCEPT ![t] = IF kind[t] = "copy" THEN "get" ELSE "step"]
          /\ rpc' = [rpc EXCEPT ![t] = IF kind[t] = "copy" THEN "seek" ELSE "off"]
          /\ pos' = (IF kind[t] = "steps" THEN [pos EXCEPT ![P(t)] = 1] ELSE pos)
          /\ UNCHANGED <<q, rb, rd, stop, cnt, dst, out>> /\ Params

Step(t) == /\ wpc[t] = "step"
           /\ IF cnt[t] = n[t] THEN wpc' = [wpc EXCEPT ![t] = "ended"] /\ out' = [out EXCEPT ![t] = "ok"] /\ UNCHANGED <<pos, dst, cnt, h>>
              ELSE /\ Say(t, "R") /\ cnt' = [cnt EXCEPT ![t] = @ + 1] /\ pos' = [pos EXCEPT ![P(t)] = @ + 1]
                   /\ dst' = [dst EXCEPT ![t][cnt[t] + 1] = Value(t, pos[P(t)])] /\ UNCHANGED <<wpc, out>>
           /\ UNCHANGED <<now, img, q, rpc, rb, rd, stop>> /\ Params

Seek(t) == /\ rpc[t] = "seek"
           /\ IF stop[E(t)] THEN rpc' = [rpc EXCEPT ![t] = "gone"] /\ pos' = pos
              ELSE IF rb[t] > n[t] THEN rpc' = [rpc EXCEPT ![t] = "end"] /\ pos' = pos
              ELSE rpc' = [rpc EXCEPT ![t] = "read"] /\ pos' = [pos EXCEPT ![P(t)] = rb[t]]
           /\ UNCHANGED <<now, img, q, rb, rd, stop, wpc, cnt, dst, out, h>> /\ Params
Read(t) == /\ rpc[t] = "read" /\ Say(t, "R")
           /\ rd' = [rd EXCEPT ![B(t)] = Value(t, pos[P(t)])] /\ pos' = [pos EXCEPT ![P(t)] = @ + 1] /\ rpc' = [rpc EXCEPT ![t] = "put"]
           /\ UNCHANGED <<now, img, q, rb, stop, wpc, cnt, dst, out>> /\ Params
Put(t) == /\ rpc[t] \in {"put", "end"} /\ Len(q[Q(t)]) < QLEN
          /\ q' = [q EXCEPT ![Q(t)] = Append(@, IF rpc[t] = "put" THEN <<rb[t], rd[B(t)]>> ELSE <<0, 0>>)]
          /\ rb' = [rb EXCEPT ![t] = @ + 1] /\ rpc' = [rpc EXCEPT ![t] = IF rpc[t] = "end" THEN "gone" ELSE "seek"]
          /\ UNCHANGED <<now, img, pos, rd, stop, wpc, cnt, dst, out, h>> /\ Params
Get(t) == /\ wpc[t] = "get" /\ q[Q(t)] # <<>> /\ q' = [q EXCEPT ![Q(t)] = Tail(@)]
          /\ LET b == Head(q[Q(t)]) IN
               IF b[1] = 0 THEN /\ wpc' = [wpc EXCEPT ![t] = "drain"] /\ out' = [out EXCEPT ![t] = IF cnt[C(t)] = n[t] THEN "ok" ELSE "fail"]
                                /\ UNCHANGED <<dst, cnt, h>>
               ELSE IF cnt[t] + 1 = fa[t] THEN /\ wpc' = [wpc EXCEPT ![t] = "drain"] /\ out' = [out EXCEPT ![t] = "fail"] /\ Say(t, "W") /\ UNCHANGED <<dst, cnt>>
               ELSE /\ dst' = [dst EXCEPT ![t] = [x \in DOMAIN @ |-> IF x = b[1] THEN b[2] ELSE @[x]]] /\ cnt' = [cnt EXCEPT ![C(t)] = @ + 1] /\ Say(t, "W") /\ UNCHANGED <<wpc, out>>
          /\ UNCHANGED <<now, img, pos, rpc, rb, rd, stop>> /\ Params
\* the end of a copy: its own reader is stopped and waited for
Drain(t) == /\ wpc[t] = "drain" /\ stop' = [stop EXCEPT ![E(t)] = TRUE]
            /\ IF q[Q(t)] # <<>> THEN q' = [q EXCEPT ![Q(t)] = Tail(@)] /\ wpc' = wpc
               ELSE q' = q /\ wpc' = [wpc EXCEPT ![t] = "join"]
            /\ UNCHANGED <<now, img, pos, rpc, rb, rd, cnt, dst, out, h>> /\ Params
Join(t) == /\ wpc[t] = "join" /\ rpc[t] = "gone" /\ wpc' = [wpc EXCEPT ![t] = "ended"]
           /\ UNCHANGED <<now, img, pos, q, rpc, rb, rd, stop, cnt, dst, out, h>> /\ Params

Reader(t) == Seek(t) \/ Read(t) \/ Put(t)
Main(t) == New(t) \/ Step(t) \/ Get(t) \/ Drain(t) \/ Join(t)
Next == \E t \in T : Reader(t) \/ Main(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Reader(t)) /\ WF_vars(Main(t))

Over(t) == wpc[t] = "ended"
Outcome == \A t \in T : Over(t) => (out[t] = "ok" <=> fa[t] = 0)
Result == \A t \in T : (Over(t) /\ out[t] = "ok") => \A b \in 1..n[t] : dst[t][b] = 100 * (IF mode = "object" THEN 1 ELSE t) + b
Ends == <>(\A t \in T : Over(t))
Report == (HIST /\ \A t \in T : Over(t)) =>
             PrintT("SCENARIO " \o ToJson([mode |-> mode, kind |-> kind, n |-> n, fa |-> fa, h |-> h]))
=============================================================================
