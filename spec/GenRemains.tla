----------------------------- MODULE GenRemains -----------------------------
(* Runs of the command for C26: what it uses and how it ends.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
N == atoi(IOEnv.VP_N)
CopyD == [cmd : {"copy"}, tr : {"local", "file", "http", "slow", "ssh", "stdin"}, comp : {"plain", "gz", "bz2", "xz", "zst", "lz4", "lzo", "tar.gz", "tar.xz", "zip"},
          bm : {"none", "local", "http", "gz"}, sig : {"none", "asc", "clear"},
          end : {"ok", "corrupt", "cut", "sum", "xml", "misfit", "nodir", "missing", "badsig", "werror", "wfull", "serror", "wsig", "rsig", "ssig", "hsig"}, k : 1..6]
Odd(x) == x.tr \in {"http", "slow", "ssh"} \/ x.comp # "plain" \/ x.bm \in {"http", "gz"}
CopyOK(x) == /\ (x.bm = "none" => x.sig = "none" /\ x.end \notin {"sum", "xml", "misfit", "badsig"})
             /\ (x.sig = "none" => x.end # "badsig") /\ (x.bm = "gz" => x.sig = "none" /\ RandomElement(1..6) = 1)
             /\ (x.end \in {"corrupt", "hsig"} => x.comp \notin {"plain", "zip"})
             /\ (x.end = "rsig" => x.tr \in {"local", "file", "stdin"} /\ x.comp \in {"plain", "zip"})
             /\ (x.tr = "stdin" => x.comp = "plain")
             /\ (x.end = "misfit" => x.comp = "plain" /\ x.tr \in {"local", "file"})
             /\ (~Odd(x) => RandomElement(1..8) = 1)
             /\ (x.end = "ok" => RandomElement(1..2) = 1)
CreateD == [cmd : {"create"}, out : {"file", "stdout", "nodir", "alias"}, how : {"fiemap", "seek", "stub", "neither"}, comp : {"plain"}, tr : {"local"}, bm : {"none"}, sig : {"none"},
            end : {"ok", "missing", "rerror", "rsig", "empty", "full"}, k : 1..5]
Some(n, S) == IF Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
Family == CASE IOEnv.VP_FAMILY = "Copies" -> Some(N, {x \in RandomSubset(40 * N, CopyD) : CopyOK(x)})
            [] IOEnv.VP_FAMILY = "Creates" -> Some(N, CreateD)
VARIABLE sc
Init == sc \in Family /\ PrintT("SCENARIO " \o ToJson(sc))
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc
=============================================================================
