----------------------------- MODULE StreamRead -----------------------------
(* The transparent reader (C14). A source delivers N cells through an object *)
(* which is either seekable, or raises on seek and tell ("raising": pipes,   *)
(* sockets), or is a child's output on which seeking is always emulated      *)
(* ("child"). The reader keeps its own position and a flag saying whether it *)
(* emulates seeking. ref is the position a plain file would have.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BUG, MaxN, MaxOps
VARIABLES n, kind, under, p, fake, ref, res, want, steps
vars == <<n, kind, under, p, fake, ref, res, want, steps>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ n \in 0..MaxN /\ kind \in {"seekable", "raising", "child"}
        /\ under = 0 /\ p = 0 /\ fake = (kind = "child") /\ ref = 0 /\ res = <<"none">> /\ want = <<"none">> /\ steps = 0

\* read(c), c < 0: all
Read(c) == LET len == IF c < 0 THEN Max(0, n - under) ELSE Min(c, Max(0, n - under))
               rlen == IF c < 0 THEN Max(0, n - ref) ELSE Min(c, Max(0, n - ref))
           IN /\ res' = <<"read", under, len>> /\ under' = under + len
              /\ p' = IF BUG = "pos" /\ c < 0 THEN p ELSE p + len
              /\ want' = <<"read", ref, rlen>> /\ ref' = ref + rlen
              /\ UNCHANGED fake
Target(off, w, cur) == CASE w = 0 -> off [] w = 1 -> cur + off [] w = 2 -> n + off
Honest(off, w) == LET t == Target(off, w, under) IN
              IF t < 0 THEN /\ res' = <<"refused">> /\ want' = <<"refused">> /\ UNCHANGED <<under, p, fake, ref>>
              ELSE /\ under' = t /\ res' = <<"ok">> /\ want' = <<"ok">> /\ ref' = Target(off, w, ref) /\ UNCHANGED <<p, fake>>
Emulated(off, w) ==
   LET t == Target(off, w, p) IN
   /\ fake' = TRUE
   /\ IF w = 2 \/ t < p
      THEN /\ IF BUG = "silent" THEN res' = <<"ok">> ELSE res' = <<"refused">>
           /\ want' = <<"refused">> /\ UNCHANGED <<under, p, ref>>
      ELSE LET got == Min(t - p, Max(0, n - under)) IN
           /\ under' = under + got
           /\ p' = IF BUG = "target" THEN t ELSE p + got
           /\ res' = <<"ok">> /\ want' = <<"ok">>
           /\ ref' = Max(ref, Min(Target(off, w, ref), n))    \* the end of the data is as far as it goes
Seek(off, w) == IF fake \/ kind = "child" THEN Emulated(off, w) ELSE IF kind = "raising" THEN Emulated(off, w) ELSE Honest(off, w)
Tell == /\ want' = <<"tell", ref>>
        /\ IF fake \/ kind = "child" THEN res' = <<"tell", p>> /\ UNCHANGED fake
           ELSE IF kind = "seekable" THEN res' = <<"tell", under>> /\ UNCHANGED fake
           ELSE IF BUG = "tell" THEN res' = <<"refused">> /\ UNCHANGED fake
           ELSE res' = <<"tell", p>> /\ fake' = TRUE
        /\ UNCHANGED <<under, p, ref>>
Next == /\ steps < MaxOps /\ steps' = steps + 1 /\ UNCHANGED <<n, kind>>
        /\ \/ \E c \in -1..(MaxN + 1) : Read(c)
           \/ \E o \in -(MaxN + 1)..(MaxN + 2), w \in {0, 1, 2} : Seek(o, w)
           \/ Tell
Spec == Init /\ [][Next]_vars

\* reads past the end deliver nothing, wherever they start
Norm(r) == IF r[1] = "read" /\ r[3] = 0 THEN <<"read", 0, 0>> ELSE r
Same == Norm(res) = Norm(want)
\* a refused seek leaves the position alone; the flag never hides that the position is known
Known == (fake \/ kind # "seekable") => p = under
Here == under = ref
=============================================================================
