------------------------------ MODULE GenMemory -----------------------------
(* Copies and descriptions of a small and a big image which are otherwise    *)
(* the same: where the image comes from (tr), its form (comp), what is mapped*)
(* (map: "none" no bmap, "all" one range with a sum, "last" only the last    *)
(* unit, "ends" the first and the last one, "many" every third unit, "old"   *)
(* as "all" without sums), whether its data can be compressed (data), where  *)
(* it goes (dest), who does it.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
N == atoi(IOEnv.VP_N)
Comps == {"plain", "gz", "bz2", "xz", "lzo", "lz4", "zst", "tar.gz", "tar.xz", "zip"}
Quick == {"plain", "gz", "zst", "lz4", "lzo", "tar.gz", "zip"}  \* whose makers are quick also for random data
Copies == [who : {"copy"}, tr : {"file", "stdin", "fileurl", "http", "chunked", "ssh"}, comp : Comps, map : {"none", "all", "last", "ends", "many", "old"}, data : {"rand", "const"}, dest : {"new", "file", "bdev"}]
OKCopy(x) == /\ x.data = "rand" => x.comp \in Quick
             /\ x.tr = "stdin" => x.comp = "plain"
             /\ x.tr = "file" /\ x.comp = "plain" => x.data = "rand"
             /\ x.dest = "bdev" => x.map # "none"
Creates == [who : {"create"}, tr : {"ext4", "tmpfs"}, comp : {"plain"}, map : {"all", "last", "ends", "many"}, data : {"rand"}, dest : {"new", "out"}]
Contribs == [who : {"contrib"}, tr : {"file"}, comp : {"plain"}, map : {"all", "ends", "many"}, data : {"rand"}, dest : {"new"}]
Dom == {x \in Copies : OKCopy(x)}
Plain == {x \in Dom : x.tr = "file" /\ x.comp = "plain"}  \* where reads can be counted
VARIABLE sc
Init == /\ sc \in RandomSubset(IF N < Cardinality(Dom) THEN N ELSE Cardinality(Dom), Dom) \cup RandomSubset(IF N < 24 THEN N \div 3 ELSE 16, Creates) \cup RandomSubset(IF N < 60 THEN 6 ELSE 12, Plain) \cup RandomSubset(IF N < 9 THEN 1 ELSE 3, Contribs)
        /\ PrintT("SCENARIO " \o ToJson(sc))
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc
=============================================================================
