------------------------------- MODULE Filemap -------------------------------
(* Mapped-area queries: the FIEMAP method (request, clipping, merging, next   *)
(* request) and the SEEK_DATA/SEEK_HOLE method, several queries running       *)
(* interleaved over one object, against any answer the kernel may give.       *)
(*                                                                            *)
(* Positions are counted in half blocks so that the file may end in the       *)
(* middle of a block. Extents are sequences of <<first block, count>>.        *)
EXTENDS Runs, TLC

CONSTANTS NB,       \* blocks of the file
          BEYOND,   \* blocks that extents may reach beyond the end of file
          BUFS,     \* possible numbers of extents per kernel reply
          NQ,       \* concurrent queries
          BUG

VARIABLES ext, size, buf, bufsz, trim, q

vars == <<ext, size, buf, bufsz, trim, q>>

Methods == {"fiemap", "seek"}
Queries == [method : Methods, what : {"m", "u"}, start : 0..(NB - 1), count : 0..NB]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Fresh(x) == [def |-> x, pc |-> "ask", block |-> x.start, rep |-> <<>>, k |-> 1, prev |-> <<>>, hole |-> x.start, out |-> <<>>,
             pos |-> 2 * x.start, s |-> 0]

Init == /\ ext \in Layouts(0, NB - 1 + BEYOND)
        /\ size \in {2 * NB, 2 * NB - 1}
        /\ bufsz \in BUFS /\ trim \in BOOLEAN
        /\ buf = <<>>
        /\ q \in [1..NQ -> {Fresh(x) : x \in {y \in Queries : y.start + y.count <= NB}}]

\* ------------------------------------------------------------------ kernel
Overlap(x, b, n) == x[1] < b + n /\ x[1] + x[2] > b
ClipExt(x, b, n) == IF ~trim THEN x
                    ELSE LET f == Max(x[1], b) l == Min(x[1] + x[2], b + n) IN <<f, l - f>>
RECURSIVE Overlapping(_, _, _, _)
Overlapping(i, b, n, left) == IF i > Len(ext) \/ left = 0 THEN <<>>
                              ELSE IF Overlap(ext[i], b, n) THEN <<ClipExt(ext[i], b, n)>> \o Overlapping(i + 1, b, n, left - 1)
                              ELSE Overlapping(i + 1, b, n, left)
Fiemap(b, n) == Overlapping(1, b, n, bufsz)

\* SEEK_DATA / SEEK_HOLE in half blocks; -1: ENXIO
MappedHalf(p) == (p \div 2) \in Blocks(ext)
Seek(p, data) ==
  IF p >= size THEN -1
  ELSE LET c == {x \in p..(size - 1) : MappedHalf(x) = data} IN
       IF c # {} THEN Least(c) ELSE IF data THEN -1 ELSE size

\* ------------------------------------------------------------- FIEMAP method
End(x) == x.def.start + x.def.count
Emit(x, f, l) == Append(x.out, <<f, l>>)

\* one mapped area f..l goes to the consumer: merging (mapped) or complementing (unmapped)
Consume(x, f, l) ==
  IF x.def.what = "m"
  THEN IF x.prev = <<>> THEN [x EXCEPT !.prev = <<f, l>>]
       ELSE IF x.prev[2] = f - 1 /\ BUG # "nomerge" THEN [x EXCEPT !.prev = <<x.prev[1], l>>]
       ELSE [x EXCEPT !.out = Emit(x, x.prev[1], x.prev[2]), !.prev = <<f, l>>]
  ELSE LET y == IF f > x.hole THEN [x EXCEPT !.out = Emit(x, x.hole, f - 1)] ELSE x IN [y EXCEPT !.hole = l + 1]

Finish(x) ==
  LET y == IF x.def.what = "m" THEN (IF x.prev = <<>> THEN x ELSE [x EXCEPT !.out = Emit(x, x.prev[1], x.prev[2])])
           ELSE IF x.hole < End(x) THEN [x EXCEPT !.out = Emit(x, x.hole, End(x) - 1)] ELSE x
  IN [y EXCEPT !.pc = "done", !.prev = <<>>]

Ask(i) == LET x == q[i] IN
  /\ x.pc = "ask" /\ x.def.method = "fiemap"
  /\ IF x.block >= End(x) THEN q' = [q EXCEPT ![i] = Finish(x)] /\ UNCHANGED buf
     ELSE LET r == Fiemap(x.block, IF BUG = "onlyrest" THEN End(x) - x.block ELSE x.def.count) IN
          /\ buf' = r
          /\ q' = [q EXCEPT ![i] = IF r = <<>> THEN Finish(x) ELSE [x EXCEPT !.rep = r, !.k = 1, !.pc = "take"]]
  /\ UNCHANGED <<ext, size, bufsz, trim>>

Take(i) == LET x == q[i] IN
  /\ x.pc = "take"
  /\ LET e == IF BUG = "shared" THEN (IF x.k <= Len(buf) THEN buf[x.k] ELSE x.rep[x.k]) ELSE x.rep[x.k]
         f == IF BUG = "noclipfirst" THEN e[1] ELSE Max(e[1], x.block)
         l == IF BUG = "noclipend" THEN e[1] + e[2] - 1 ELSE Min(e[1] + e[2], End(x)) - 1
     IN IF e[1] > End(x) - 1 THEN q' = [q EXCEPT ![i] = Finish(x)]
        ELSE LET y == Consume(x, f, l) IN
             q' = [q EXCEPT ![i] = IF x.k = Len(x.rep)
                                   THEN IF BUG = "onereply" THEN Finish(y) ELSE [y EXCEPT !.block = e[1] + e[2], !.pc = "ask"]
                                   ELSE [y EXCEPT !.k = @ + 1]]
  /\ UNCHANGED <<ext, size, buf, bufsz, trim>>

\* --------------------------------------------------------------- SEEK method
Limit(x) == 2 * End(x)
SeekStart(i) == LET x == q[i] d == Seek(x.pos, x.def.what = "m") IN
  /\ x.pc = "ask" /\ x.def.method = "seek"
  /\ q' = [q EXCEPT ![i] = IF d = -1 \/ d >= Limit(x) \/ d = size THEN [x EXCEPT !.pc = "done"] ELSE [x EXCEPT !.s = d, !.pc = "end"]]
  /\ UNCHANGED <<ext, size, buf, bufsz, trim>>
SeekEnd(i) == LET x == q[i]
                  d0 == Seek(x.s, x.def.what = "u")
                  d1 == IF d0 = -1 \/ (d0 = size /\ BUG # "eof") THEN 2 * NB ELSE d0
                  d == IF BUG = "nolimit" THEN d1 ELSE Min(d1, Limit(x)) IN
  /\ x.pc = "end"
  /\ q' = [q EXCEPT ![i] = [x EXCEPT !.out = Emit(x, x.s \div 2, d \div 2 - 1), !.pos = d, !.pc = "ask"]]
  /\ UNCHANGED <<ext, size, buf, bufsz, trim>>

Next == \E i \in 1..NQ : Ask(i) \/ Take(i) \/ SeekStart(i) \/ SeekEnd(i)
Spec == Init /\ [][Next]_vars /\ \A i \in 1..NQ : WF_vars(Ask(i) \/ Take(i) \/ SeekStart(i) \/ SeekEnd(i))

\* ---------------------------------------------------------------- properties
Wanted(x) == LET w == Window(x.def.start, x.def.count) IN IF x.def.what = "m" THEN w \cap Blocks(ext) ELSE w \ Blocks(ext)
Exact == \A i \in 1..NQ : q[i].pc = "done" => IsRuns(q[i].out, Wanted(q[i]))
\* never past the right answer while running
Bounded == \A i \in 1..NQ : Len(q[i].out) <= NB + 1
Terminates == \A i \in 1..NQ : <>(q[i].pc = "done")
\* the definition of exactness is what it should be
Definition == \A i \in 1..NQ : IsRuns(RunsOf(Wanted(q[i])), Wanted(q[i])) /\ (q[i].pc = "done" => q[i].out = RunsOf(Wanted(q[i])))
=============================================================================
