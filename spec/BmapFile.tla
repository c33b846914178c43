------------------------------ MODULE BmapFile ------------------------------
(* A bmap file as an abstract record and the reader which accepts or refuses *)
(* it (property C06). A file is made by a writer, then at most one part of   *)
(* it is changed (damage, truncation), or it is made with contents no writer *)
(* should make (forged: inconsistent geometry, bad range, unknown version).  *)
(* The self-checksum is ideal: it is the tuple of all other parts.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BUG, MaxI
VARIABLES f, orig, why, pc, out, cls, written, next
vars == <<f, orig, why, pc, out, cls, written, next>>

Known == {"1.0", "1.1", "1.2", "1.3", "1.4", "2.0"}
Vers == Known \cup {"1.5", "2.1", "3.0", "10.0", "0.3", "x.y", "2", "none"}
Summed == {"1.3", "1.4", "2.0"}
Major(v) == CASE v \in {"1.0", "1.1", "1.2", "1.3", "1.4", "1.5"} -> 1 [] v \in {"2.0", "2.1", "2"} -> 2 [] v = "3.0" -> 3 [] v = "10.0" -> 10
              [] v = "0.3" -> 0 [] OTHER -> -1
Minor(v) == CASE v \in {"1.0", "2.0", "3.0", "10.0"} -> 0 [] v \in {"1.1", "2.1"} -> 1 [] v = "1.2" -> 2 [] v \in {"1.3", "0.3"} -> 3 [] v = "1.4" -> 4
              [] v = "1.5" -> 5 [] OTHER -> -1
TooNew(v) == Major(v) > 2

Strip(x) == <<x.ver, x.tag, x.type, x.isz, x.bsz, x.cnt, x.rng, x.body, x.xml>>
Seal(x) == [x EXCEPT !.stored = Strip(x)]
Ceil(a, b) == (a + b - 1) \div b
Tag(v) == IF v = "1.3" THEN "sha1" ELSE IF v \in {"1.4", "2.0"} \/ Major(v) >= 2 THEN "chksum" ELSE "none"
Plain(v, i, b, r) == [ver |-> v, tag |-> Tag(v), type |-> IF Tag(v) = "chksum" THEN "good" ELSE "none", isz |-> i, bsz |-> b, cnt |-> Ceil(i, b), rng |-> r,
                      body |-> 0, xml |-> TRUE, stored |-> <<>>]
Ranges(n) == {<<>>, <<<<0, n - 1>>>>, <<<<0, 0>>>>, <<<<n - 1, n - 1>>>>} \cup (IF n > 2 THEN {<<<<0, 0>>, <<2, n - 1>>>>} ELSE {})
Good == UNION {{Seal(Plain(v, i, b, r)) : r \in Ranges(Ceil(i, b))} : v \in Known, i \in 1..MaxI, b \in 1..3}

Damage(g) ==
     {[w |-> "version", x |-> [g EXCEPT !.ver = v]] : v \in Vers \ {g.ver}}
\cup {[w |-> "tag", x |-> [g EXCEPT !.tag = y]] : y \in {"none", "sha1", "chksum", "typo"} \ {g.tag}}
\cup {[w |-> "type", x |-> [g EXCEPT !.type = y]] : y \in {"none", "bad", "other"} \ {g.type}}
\cup {[w |-> "isz", x |-> [g EXCEPT !.isz = y]] : y \in (0..(MaxI + 3)) \ {g.isz}}
\cup {[w |-> "bsz", x |-> [g EXCEPT !.bsz = y]] : y \in (0..4) \ {g.bsz}}
\cup {[w |-> "cnt", x |-> [g EXCEPT !.cnt = y]] : y \in (0..(MaxI + 1)) \ {g.cnt}}
\cup {[w |-> "range", x |-> [g EXCEPT !.rng[k][e] = y]] : k \in 1..Len(g.rng), e \in {1, 2}, y \in 0..MaxI}
\cup {[w |-> "norange", x |-> [g EXCEPT !.rng = SubSeq(g.rng, 2, Len(g.rng))]] : y \in IF Len(g.rng) > 0 THEN {1} ELSE {}}
\cup {[w |-> "body", x |-> [g EXCEPT !.body = 1]]}
\cup {[w |-> "cut", x |-> [g EXCEPT !.xml = FALSE]]}
\cup {[w |-> "stored", x |-> [g EXCEPT !.stored = <<"other">>]] : y \in IF g.tag = "none" THEN {} ELSE {1}}
Changed(g) == {d \in Damage(g) : d.x # g}
\* files whose maker computed the checksum over bad contents
Forged(g) ==
     {[w |-> "version", x |-> Seal(Plain(v, g.isz, g.bsz, g.rng))] : v \in Vers \ Known}
\cup {[w |-> "cnt", x |-> Seal([g EXCEPT !.cnt = y])] : y \in (0..(MaxI + 1)) \ {g.cnt}}
\cup {[w |-> "isz", x |-> Seal([g EXCEPT !.isz = y])] : y \in (1..(MaxI + 3)) \ {g.isz}}
\cup {[w |-> "bsz", x |-> Seal([g EXCEPT !.bsz = y])] : y \in (1..4) \ {g.bsz}}
\cup {[w |-> "badrange", x |-> Seal([g EXCEPT !.rng[k] = <<a, b>>])] : k \in 1..Len(g.rng), a \in 1..(g.cnt - 1), b \in 0..(g.cnt - 2)}

BadRange(x) == \E k \in 1..Len(x.rng) : x.rng[k][1] > x.rng[k][2]
Inconsistent(x) == x.bsz = 0 \/ x.cnt # Ceil(x.isz, IF x.bsz = 0 THEN 1 ELSE x.bsz)

\* ---- what the property demands of a file f made by damaging or forging orig
Must(y, o, x) == IF \/ y = "damaged" /\ o.ver \in Summed
                    \/ Inconsistent(x) \/ BadRange(x) \/ TooNew(x.ver) \/ ~x.xml THEN "refuse"
                 ELSE IF y = "intact" THEN "accept" ELSE "any"
MustEarly(y, o, x) == Must(y, o, x) = "refuse" /\ ((y = "damaged" /\ o.ver \in Summed) \/ Inconsistent(x) \/ TooNew(x.ver) \/ ~x.xml)
MustDoc(x) == ~x.xml \/ TooNew(x.ver)

\* ---- the reader, step by step
Init == /\ pc = "xml" /\ out = "" /\ cls = "" /\ written = FALSE /\ next = 1
        /\ orig \in Good
        /\ \/ why = "intact" /\ f = orig
           \/ why = "damaged" /\ \E d \in Changed(orig) : f = d.x
           \/ why = "forged" /\ \E d \in Forged(orig) : f = d.x
Stay == UNCHANGED <<f, orig, why>>
Fail(c) == out' = "fail" /\ cls' = c /\ pc' = "end" /\ UNCHANGED <<written, next>> /\ Stay
Go(l) == pc' = l /\ UNCHANGED <<out, cls, written, next>> /\ Stay
Xml == pc = "xml" /\ IF ~f.xml THEN Fail("error") ELSE Go("version")
Version == pc = "version" /\ IF Major(f.ver) < 0 \/ Minor(f.ver) < 0 THEN Fail("internal")
                             ELSE IF TooNew(f.ver) THEN Fail("error") ELSE Go("geometry")
Geometry == pc = "geometry" /\ IF f.bsz = 0 \/ f.cnt = 0 THEN Fail("internal")
                               ELSE IF (IF BUG = "geometry" THEN f.cnt * f.bsz < f.isz ELSE Inconsistent(f)) THEN Fail("error")
                               ELSE Go(IF BUG = "late" THEN "ranges" ELSE "sum")
Expect == IF Major(f.ver) > 1 \/ (Major(f.ver) = 1 /\ Minor(f.ver) = 4) THEN "chksum" ELSE IF Minor(f.ver) = 3 THEN "sha1" ELSE "none"
Sum == pc = "sum" /\
       IF Expect = "none"
       THEN IF f.tag \in {"sha1", "chksum"} /\ BUG # "oldversion" THEN Fail("error") ELSE Go(IF BUG = "late" THEN "done" ELSE "ranges")
       ELSE IF f.tag # Expect THEN Fail("internal")
       ELSE IF Expect = "chksum" /\ f.type \in {"none", "bad"} THEN Fail("internal")
       ELSE IF f.stored # Strip(f) THEN Fail("error") ELSE Go(IF BUG = "late" THEN "done" ELSE "ranges")
RangeStep == pc = "ranges" /\
          IF next > Len(f.rng) THEN Go(IF BUG = "late" THEN "sum" ELSE "done")
          ELSE IF f.rng[next][1] > f.rng[next][2] /\ BUG # "range" THEN Fail("error")
          ELSE IF f.rng[next][2] >= Ceil(orig.isz, f.bsz) THEN Fail("error")   \* the image ends too early
          ELSE next' = next + 1 /\ written' = TRUE /\ UNCHANGED <<out, cls, pc>> /\ Stay
Done == pc = "done" /\ out' = "ok" /\ pc' = "end" /\ UNCHANGED <<cls, written, next>> /\ Stay
Next == Xml \/ Version \/ Geometry \/ Sum \/ RangeStep \/ Done \/ (pc = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Refused == Must(why, orig, f) = "refuse" => out # "ok"
Early == MustEarly(why, orig, f) => ~written
Documented == (MustDoc(f) /\ out = "fail") => cls = "error"
Accepted == (Must(why, orig, f) = "accept" /\ pc = "end") => out = "ok"
Ends == <>(pc = "end")
=============================================================================
