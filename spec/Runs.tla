-------------------------------- MODULE Runs --------------------------------
(* The meaning of "exactly the maximal runs of the blocks of a set".         *)
EXTENDS Integers, Sequences, FiniteSets

\* blocks covered by a sequence of extents <<first, count>>
Blocks(ext) == UNION {ext[i][1] .. (ext[i][1] + ext[i][2] - 1) : i \in 1..Len(ext)}

Window(start, count) == start .. (start + count - 1)

RECURSIVE Total(_, _)
Total(ans, i) == IF i = 0 THEN 0 ELSE (ans[i][2] - ans[i][1] + 1) + Total(ans, i - 1)
\* total length without deep recursion: halve
RECURSIVE TotalIn(_, _, _)
TotalIn(ans, lo, hi) == IF lo > hi THEN 0
                        ELSE IF lo = hi THEN ans[lo][2] - ans[lo][1] + 1
                        ELSE LET mid == (lo + hi) \div 2 IN TotalIn(ans, lo, mid) + TotalIn(ans, mid + 1, hi)

\* ans: sequence of <<first, last>>; S: set of blocks
WellFormed(ans) == \A i \in 1..Len(ans) : ans[i][1] <= ans[i][2]
Ascending(ans) == \A i \in 1..(Len(ans) - 1) : ans[i][2] < ans[i + 1][1]
Maximal(ans) == \A i \in 1..(Len(ans) - 1) : ans[i][2] + 1 < ans[i + 1][1]
Inside(ans, S) == \A i \in 1..Len(ans) : (ans[i][1] .. ans[i][2]) \subseteq S
Covers(ans, S) == TotalIn(ans, 1, Len(ans)) = Cardinality(S)

IsRuns(ans, S) == WellFormed(ans) /\ Maximal(ans) /\ Inside(ans, S) /\ Covers(ans, S)

\* the same, constructed (used to check the definition itself)
RECURSIVE RunsOf(_)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RunEnd(S, x) == CHOOSE y \in S : y >= x /\ (x..y) \subseteq S /\ (y + 1) \notin S
RunsOf(S) == IF S = {} THEN <<>> ELSE LET x == Least(S) y == RunEnd(S, x) IN <<<<x, y>>>> \o RunsOf(S \ (x..y))

\* all ways to lay out extents over the blocks lo..hi (adjacent extents allowed)
RECURSIVE Layouts(_, _)
Layouts(lo, hi) ==
  IF lo > hi THEN {<<>>}
  ELSE Layouts(lo + 1, hi) \cup UNION {{<<<<lo, n>>>> \o r : r \in Layouts(lo + n, hi)} : n \in 1..(hi - lo + 1)}
=============================================================================
