------------------------------ MODULE FarTrace ------------------------------
(* Very long sparse files, described by runs of blocks <<first, last>> in    *)
(* ascending order instead of sets. T:                                       *)
(*  prop, what   "copy" | "create" | "query" | "writer"                      *)
(*  nb, tail     blocks of the image, bytes in its last block                *)
(*  ext          the maximal runs of mapped blocks                           *)
(*  o            outcome "ok" | "fail" | "hang"                              *)
(* copy, writer: obs: maximal runs <<first, last, k>> of the destination,    *)
(*  k: "img" (as in the image), "zero", "old" (as before), "other"; what     *)
(*  appears in none reads as zeros like in the image; old: runs of previous  *)
(*  data of the destination; dnb, dtail: size; kind; data: runs that are not *)
(*  holes (or <<>> if unknown)                                               *)
(* create: ranges, geo <<isize blocks, tail, blocks, mapped>>, sums          *)
(* ill: what is wrong with a copy ("" and "fits": nothing), see Refused;      *)
(* wrote: something was written to the destination                           *)
(* query: answers [k, s, c, r, b]                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VP_TRACES)
VARIABLES t, done
If(c, n) == IF c THEN {n} ELSE {}
Has(R, a, b) == \E i \in 1..Len(R) : R[i][1] <= a /\ b <= R[i][2]
Meets(R, a, b) == \E i \in 1..Len(R) : R[i][1] <= b /\ a <= R[i][2]
RECURSIVE Sum(_, _)
Sum(R, i) == IF i = 0 THEN 0 ELSE R[i][2] - R[i][1] + 1 + Sum(R, i - 1)
Only(R, ks) == SelectSeq(R, LAMBDA x : x[3] \in ks)
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
\* the runs within the window of c blocks from s, and the complementary runs
Clip(R, s, c) == LET e == s + c - 1
                     I == SelectSeq(R, LAMBDA x : x[1] <= e /\ s <= x[2]) IN [i \in 1..Len(I) |-> <<Mx(I[i][1], s), Mn(I[i][2], e)>>]
RECURSIVE Gaps(_, _, _, _)
Gaps(R, i, from, e) == IF from > e THEN <<>> ELSE IF i > Len(R) THEN <<<<from, e>>>>
                       ELSE (IF R[i][1] > from THEN <<<<from, R[i][1] - 1>>>> ELSE <<>>) \o Gaps(R, i + 1, R[i][2] + 1, e)
Holes(R, s, c) == Gaps(Clip(R, s, c), 1, s, s + c - 1)
Pairs(R) == [i \in 1..Len(R) |-> <<R[i][1], R[i][2]>>]

\* a destination after success
Data(T) == \A i \in 1..Len(T.ext) : Has(Only(T.obs, {"img"}), T.ext[i][1], T.ext[i][2])
\* outside of the mapped blocks: zeros in a file, the previous data on a device
Outside(T, ks) == \A i \in 1..Len(T.obs) : T.obs[i][3] \in ks => Has(T.ext, T.obs[i][1], T.obs[i][2])
Kept(T) == \A i \in 1..Len(T.old) : Meets(T.ext, T.old[i][1], T.old[i][2]) \/ Has(Only(T.obs, {"old"}), T.old[i][1], T.old[i][2])
\* a copy that must not succeed; one which is known to have no room writes nothing
Refused(T) == T.ill \in {"sum", "size+", "size-", "count", "cut", "small"}
CopyViol(T) == LET P(x) == T.prop \o x IN
  IF Refused(T) THEN If(T.o = "ok", P("_accepted")) \cup If(T.o = "hang", P("_hang")) \cup If(T.ill = "small" /\ T.wrote, P("_wrote"))
  ELSE IF T.o # "ok" THEN If(T.prop # "C02", P("_refused")) \cup If(T.o = "hang" /\ T.prop # "C02", P("_hang"))
  ELSE      If(~Data(T) /\ T.prop # "C02", P("_data"))
       \cup If(T.kind = "reg" /\ ~Outside(T, {"old", "other"}), P("_holes"))
       \cup If(T.kind = "bdev" /\ (~Outside(T, {"other"}) \/ ~Kept(T)), P("_kept"))
       \cup If(T.kind = "reg" /\ <<T.dnb, T.dtail>> # <<T.nb, T.tail>>, P("_size"))
       \cup If(T.holes /\ Pairs(T.data) # Pairs(T.ext), P("_holes"))
CreateViol(T) == IF T.o # "ok" THEN {T.prop \o "_refused"}
                 ELSE If(Pairs(T.ranges) # Pairs(T.ext), T.prop \o "_ranges") \cup If(T.geo # <<T.nb, T.tail, T.nb, Sum(T.ext, Len(T.ext))>>, T.prop \o "_geometry") \cup If(~T.sums, T.prop \o "_sums")
AnswerViol(T, a) == CASE a.x # "" -> {T.prop \o "_error"}
                      [] a.k = "m" -> If(Pairs(a.r) # Clip(T.ext, a.s, a.c), T.prop \o "_mapped")
                      [] a.k = "u" -> If(Pairs(a.r) # Holes(T.ext, a.s, a.c), T.prop \o "_unmapped")
                      [] a.k = "bm" -> If(a.b # Has(T.ext, a.s, a.s), T.prop \o "_block")
                      [] a.k = "bu" -> If(a.b = Has(T.ext, a.s, a.s), T.prop \o "_block")
QueryViol(T) == If(T.o # "ok", T.prop \o "_error") \cup UNION {AnswerViol(T, T.answers[i]) : i \in 1..Len(T.answers)}
Viol(T) == CASE T.what \in {"copy", "writer"} -> CopyViol(T) [] T.what = "create" -> CreateViol(T) [] T.what = "query" -> QueryViol(T)
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, viol |-> Viol(Traces[t]), hit |-> {"far_" \o Traces[t].what} \cup If(Traces[t].ill # "", "far_" \o Traces[t].ill)]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
