---------------------------- MODULE StreamTrace ----------------------------
(* Calls recorded on the transparent reader against the plain file (C14).    *)
(* n: bytes of the plain file; kind: "seekable" (a plain local file),        *)
(* "stream", "either"; size: reported size, -1 unknown; ops: o, a (argument, *)
(* -1 of read: everything), w, x ("" or the failure), n (bytes delivered or  *)
(* position told), at (where in the plain file these bytes are)              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Avail(T, p, a) == LET r == Max(0, T.n - p) IN IF a < 0 THEN r ELSE Min(a, r)
\* outcomes of one operation from reference position p: pairs of failure and next position
Target(T, p, op) == CASE op.w = 0 -> op.a [] op.w = 1 -> p + op.a [] op.w = 2 -> T.n + op.a
SeekOut(T, p, op) ==
  LET g == Target(T, p, op)
      honest == IF g < 0 THEN {<<FALSE, p>>} ELSE {<<TRUE, g>>}
      stream == IF op.w = 2 \/ g < p THEN {<<FALSE, p>>} \cup (IF g < 0 THEN {} ELSE {<<TRUE, g>>})
                ELSE {<<TRUE, g>>, <<TRUE, Min(g, Max(T.n, p))>>}     \* the end of the data is as far as it need go
  IN CASE T.kind = "seekable" -> honest [] T.kind = "stream" -> stream [] T.kind = "either" -> honest \cup stream
Ok(op) == op.x = ""
After(T, op, S) ==
  CASE op.o = "r" -> IF ~Ok(op) THEN {} ELSE {p + op.n : p \in {q \in S : op.n = Avail(T, q, op.a) /\ (op.n = 0 \/ op.at = q)}}
    [] op.o = "t" -> IF ~Ok(op) THEN {} ELSE {p \in S : p = op.n}
    [] op.o = "s" -> {o[2] : o \in {u \in UNION {SeekOut(T, p, op) : p \in S} : u[1] = Ok(op)}}
Name(op) == "C14_" \o (CASE op.o = "r" -> "read" [] op.o = "t" -> "tell" [] op.o = "s" -> "seek") \o (IF Ok(op) THEN "" ELSE "_fails")
RECURSIVE Go(_, _, _)
Go(T, i, S) == IF i > Len(T.ops) THEN {}
               ELSE LET S2 == After(T, T.ops[i], S) IN IF S2 = {} THEN {Name(T.ops[i])} ELSE Go(T, i + 1, S2)
Viol(T) == IF T.x # "" THEN {"C14_open"}
           ELSE Go(T, 1, {0}) \cup (IF T.size \in {-1, T.n} \/ (T.pipe /\ T.size = 0) THEN {} ELSE {"C14_size"})
Hit(T) == {T.ops[i].o \o (IF Ok(T.ops[i]) THEN "" ELSE "_refused") : i \in 1..Len(T.ops)}
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> Hit(Traces[t])]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
