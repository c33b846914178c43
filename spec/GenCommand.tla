---------------------------- MODULE GenCommand -----------------------------
(* Command lines for the copy command (C16 C17 C21): worlds of CopyRules and *)
(* how they are realised: name and alias spelling, transports, destination   *)
EXTENDS CopyRules, TLC, Json, IOUtils, Randomization
N == atoi(IOEnv.VP_N)
Pick(seq) == seq[RandomElement(1..Len(seq))]
Base == [n |-> 1, ex |-> {1}, bm |-> "none", nobmap |-> FALSE, nosig |-> FALSE, quiet |-> FALSE, debug |-> FALSE, so |-> "none",
         asc |-> "none", sg |-> "none", emb |-> "no", img |-> "ok", alias |-> "no", alt |-> FALSE, ver |-> "ok",
         shape |-> 0, tr |-> "local", btr |-> "local", str |-> "local", dest |-> "new", how |-> "same", x |-> 0, end |-> "no"]
Trans == <<"local", "local", "local", "file", "http", "ssh">>
Choice1(x) == LET n == RandomElement(0..3) IN
   [Base EXCEPT !.n = n, !.ex = RandomElement(SUBSET (0..n)), !.bm = Pick(<<"none", "none", "none", "none", "given", "given", "missing", "image">>),
     !.nobmap = Pick(<<TRUE, FALSE, FALSE>>), !.nosig = Pick(<<TRUE, FALSE, FALSE>>), !.quiet = Pick(<<TRUE, FALSE, FALSE, FALSE>>), !.debug = Pick(<<TRUE, FALSE, FALSE, FALSE>>),
     !.so = Pick(<<"none", "none", "none", "none", "none", "good", "missing", "wrong">>), !.asc = Pick(<<"none", "none", "none", "good">>), !.img = Pick(<<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "missing">>),
     !.shape = RandomElement(0..9), !.tr = Pick(Trans), !.btr = Pick(Trans), !.str = Pick(Trans), !.dest = Pick(<<"new", "old", "bdev">>), !.how = Pick(<<"same", "dot", "symlink">>), !.x = x]
\* the systematic part: which of the existing bmaps, without anything else
Choice2(d) == UNION {{[Base EXCEPT !.n = n, !.ex = ex, !.nobmap = nb, !.bm = bm, !.shape = sh, !.tr = tr] :
                ex \in SUBSET (0..n), nb \in BOOLEAN, bm \in {"none", "given"}, sh \in {0, 1}, tr \in {"local", "http"}} : n \in 0..2}
Sign1(d) ==
      {[Base EXCEPT !.bm = "given", !.so = k, !.btr = b, !.str = b] : k \in Good \cup Bad \cup Odd, b \in {"local", "http"}}
 \cup {[Base EXCEPT !.bm = bm, !.asc = k, !.sg = "none", !.btr = b, !.tr = b] : k \in Good \cup Bad \cup Odd, b \in {"local", "http"}, bm \in {"none", "given"}}
 \cup {[Base EXCEPT !.bm = bm, !.sg = k, !.btr = b, !.tr = b] : k \in Good \cup Bad \cup Odd, b \in {"local", "http"}, bm \in {"none", "given"}}
 \cup {[Base EXCEPT !.bm = bm, !.emb = k, !.btr = b, !.tr = b, !.nosig = ns] : k \in EmbGood \cup EmbBad \cup EmbOdd, b \in {"local", "http"}, bm \in {"none", "given"}, ns \in BOOLEAN}
Few == {"none", "good", "wrong", "g+untrusted", "unknown+g", "unknown", "untrusted", "expired", "inlineother", "mix2"}
SignD == [bm : {"none", "given"}, so : Few, asc : Few, sg : Few, emb : {"no", "good", "unknown", "altered"}, nosig : BOOLEAN, b : {"local", "http", "file", "ssh"},
          st : {"local", "http", "file"}, alt : BOOLEAN, de : {"new", "bdev"}]
SignOK(x) == /\ (x.nosig => x.so = "none" /\ RandomElement(1..3) = 1)
             /\ (x.alt => x.b = "http" /\ x.emb = "no" /\ ~x.nosig /\ {x.so, x.asc, x.sg} # {"none"} /\ {x.so, x.asc, x.sg} \cap {"wrong", "mix2"} = {})
             /\ (x.emb # "no" => RandomElement(1..2) = 1)
             /\ (x.so # "none" => RandomElement(1..3) = 1)
             /\ (x.asc # "none" /\ x.sg # "none" => RandomElement(1..4) = 1)
Sign2(d) == {[Base EXCEPT !.bm = x.bm, !.so = x.so, !.asc = x.asc, !.sg = x.sg, !.emb = x.emb, !.nosig = x.nosig, !.btr = x.b, !.tr = x.b, !.str = x.st, !.alt = x.alt, !.dest = x.de] :
              x \in {y \in RandomSubset(10 * N, SignD) : SignOK(y)}}
\* there are no means to verify signatures
Verifier(d) == {[Base EXCEPT !.bm = bm, !.so = so, !.asc = a, !.sg = g, !.emb = e, !.nosig = ns, !.ver = v, !.btr = b, !.tr = b, !.str = b] :
                 bm \in {"none", "given"}, so \in {"none", "good", "missing"}, a \in {"none", "good", "wrong"}, g \in {"none", "good"}, e \in {"no", "good", "two", "altered"},
                 ns \in BOOLEAN, v \in {"none", "nokeys"}, b \in {"local", "http"}}
AliasD == [bm : {"none", "given"}, nobmap : {FALSE, FALSE, TRUE}, nosig : BOOLEAN, so : {"none", "good", "wrong"}, asc : {"none", "good"}, sg : {"none", "good"}, emb : {"no", "good"},
           alias : {"image", "bmap", "opt", "asc", "sig"}, how : {"same", "dot", "symlink", "hardlink", "abs"}, tr : {"local", "file", "stdin"}, btr : {"local", "file"}, str : {"local", "file"}, shape : {0, 3, 5}]
AliasOK(x) == /\ (x.alias = "opt" => x.so # "none") /\ (x.alias = "asc" => x.asc # "none") /\ (x.alias = "sig" => x.sg # "none") /\ ~(x.nosig /\ x.so # "none")
              /\ ~(x.nobmap /\ x.bm = "given") /\ (x.tr = "stdin" => x.bm = "given" \/ x.nobmap)
Alias1(d) == {[Base EXCEPT !.bm = x.bm, !.nobmap = x.nobmap, !.nosig = x.nosig, !.so = x.so, !.asc = x.asc, !.sg = x.sg, !.emb = x.emb, !.alias = x.alias, !.how = x.how, !.shape = x.shape,
                !.tr = x.tr, !.btr = x.btr, !.str = x.str, !.dest = "old"] : x \in {y \in RandomSubset(8 * N, AliasD) : AliasOK(y)}}
\* copies to block devices of a capacity around the image size
DeviceD == [bmap : {"none", "full", "part"}, comp : {"plain", "gz", "zip", "tar.gz"}, tr : {"local", "http", "stdin", "file"}, delta : {-40960, -4096, -512, -1, 0, 1, 4096, 100000},
            busy : BOOLEAN, errno : {"EBUSY", "EBUSY", "EPERM", "EACCES", "EROFS", "EINVAL", "ENXIO"}, verify : BOOLEAN, link : BOOLEAN, blk : {12, 300}]
DeviceOK(x) == /\ (x.tr = "stdin" => x.comp = "plain")
               /\ (x.busy => RandomElement(1..3) = 1)
               /\ (x.comp # "plain" => RandomElement(1..2) = 1)
Device(d) == {x \in RandomSubset(4 * N, DeviceD) : DeviceOK(x)}
\* copies which go wrong at some point, quietly or not
EndD == [bm : {"none", "given"}, ex : SUBSET (0..2), nobmap : BOOLEAN, quiet : BOOLEAN, asc : {"none", "good", "two", "sub"}, emb : {"no", "good"}, shape : 0..9, tr : {"local", "http", "file"},
         dest : {"new", "old", "bdev"}, end : {"no", "write", "write2", "fsync", "read", "read2", "sum", "short", "slow", "sigwrite", "sigwrite2", "sigfsync"}]
EndOK(x) == /\ (x.nobmap => x.bm = "none" /\ x.end \notin {"sum", "short"})
            /\ (x.end = "slow" => x.tr = "http" /\ (x.nobmap \/ x.bm = "given") /\ RandomElement(1..2) = 1)
            /\ (x.end \in {"read", "read2"} => x.tr # "http")
            /\ (x.bm = "none" /\ ~x.nobmap => x.ex # {})
            /\ (x.quiet => RandomElement(1..3) = 1)
Ends(d) == {[Base EXCEPT !.n = 2, !.bm = x.bm, !.ex = x.ex, !.nobmap = x.nobmap, !.quiet = x.quiet, !.asc = x.asc, !.emb = x.emb, !.shape = x.shape, !.tr = x.tr, !.btr = IF x.end = "slow" THEN "local" ELSE x.tr, !.dest = x.dest, !.end = x.end] :
              x \in {y \in RandomSubset(4 * N, EndD) : EndOK(y)}}
\* images of 2^e bytes and around it, with few mapped blocks of 2^b bytes, copied and bmaps of them created
Figures(d) == {x \in [e : 0..62, d : {"-1", "0", "1", "half"}, b : {9, 12, 16}, m : {"first", "last", "both"}, what : {"copy", "create"}] :
                x.e # 62 \/ x.d = "0"}
Some(S) == IF Cardinality(S) <= N THEN S ELSE RandomSubset(N, S)
Family == CASE IOEnv.VP_FAMILY = "Choice" -> {Choice1(x) : x \in 1..N}
            [] IOEnv.VP_FAMILY = "Siblings" -> Some(Choice2(0))
            [] IOEnv.VP_FAMILY = "Sign" -> Some(Sign1(0))
            [] IOEnv.VP_FAMILY = "Signs" -> Some(Sign2(0))
            [] IOEnv.VP_FAMILY = "Verifier" -> Some(Verifier(0))
            [] IOEnv.VP_FAMILY = "Device" -> Some(Device(0))
            [] IOEnv.VP_FAMILY = "Ends" -> Some(Ends(0))
            [] IOEnv.VP_FAMILY = "Figures" -> Some(Figures(0))
            [] IOEnv.VP_FAMILY = "Alias" -> Some(Alias1(0))
VARIABLE sc
Init == sc \in Family /\ PrintT("SCENARIO " \o ToJson(sc))
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc
=============================================================================
