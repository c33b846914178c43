------------------------------- MODULE Places -------------------------------
(* The command and the place it writes to: a little file system with names,  *)
(* symbolic links, nodes (which may have two names) and devices. The path is *)
(* followed, the node it leads to is opened (made, if there is none, or      *)
(* emptied), written piece by piece, given the size of the image and         *)
(* synchronised.                                                             *)
EXTENDS PlacesRules, Integers, Sequences, FiniteSets, TLC
CONSTANTS PIECES, \* the number of pieces of the image, the last of which is a hole
          BUG     \* "none", "rename" (a new file is put in the place of the old one), "unlink" (the old file is removed first), "keep" (the old data stay),
                  \* "swallow" (write errors are ignored), "syncnull" (every destination must synchronise), "nofollow" (a symbolic link is replaced),
                  \* "remove" (removes what it wrote when it fails), "chmod", "nowarn", "mkdirs" (makes missing directories), "nosize"
Worlds == {x \in [cmd : {"copy", "create"}, place : Kinds, bad : {"no", "sum", "cut"}, map : BOOLEAN, verify : BOOLEAN] :
             (x.cmd = "create" => x.bad = "no" /\ x.map /\ x.verify) /\ (~x.map => x.bad = "no")}
None == [k |-> "none", to |-> "-"]
Node(n) == [k |-> "node", to |-> n]
Link(n) == [k |-> "link", to |-> n]
\* names: P is what the user says; L, M targets of links; O another name of the node; D a name in a directory which does not exist
Start(p) == [P |-> CASE p \in {"short", "long", "hard", "dots", "mode", "devfile", "rofile"} -> Node("a") [] p \in {"link", "chain", "dangling", "linkdir"} -> Link("L")
                     [] p = "loop" -> Link("P") [] p = "dir" -> [k |-> "dir", to |-> "-"] [] p \in Devs -> [k |-> "dev", to |-> p] [] OTHER -> None,
             L |-> CASE p = "link" -> Node("a") [] p = "chain" -> Link("M") [] p = "linkdir" -> [k |-> "dir", to |-> "-"] [] OTHER -> None,
             M |-> IF p = "chain" THEN Node("a") ELSE None,
             O |-> IF p = "hard" THEN Node("a") ELSE None, D |-> None]
RECURSIVE Follow(_, _, _)
Follow(e, n, k) == IF e[n].k # "link" THEN n ELSE IF k = 0 THEN "loop" ELSE Follow(e, e[n].to, k - 1)
VARIABLES w, ent, data, perm, at, pc, n, o, warned, said
vars == <<w, ent, data, perm, at, pc, n, o, warned, said>>
\* node a holds old data: short or longer than the image
Old(p) == [i \in 1..(PIECES + 1) |-> IF p = "short" /\ i > 1 THEN "end" ELSE "old"]
Empty == [i \in 1..(PIECES + 1) |-> "end"]
Image == [i \in 1..(PIECES + 1) |-> IF i < PIECES THEN "new" ELSE IF i = PIECES THEN "zero" ELSE "end"]
Init == /\ w \in Worlds /\ ent = Start(w.place) /\ data = [a |-> Old(w.place), b |-> Empty] /\ perm = [a |-> "own", b |-> "new"]
        /\ at = "-" /\ pc = "open" /\ n = 1 /\ o = "run" /\ warned = FALSE /\ said = FALSE
Fail(undo) == /\ o' = "fail" /\ said' = TRUE /\ pc' = "end"
              /\ ent' = IF BUG = "remove" /\ undo /\ at \in {"a", "b"} THEN [ent EXCEPT ![Follow(ent, "P", 3)] = None] ELSE ent
\* opening for writing: where the path leads
Open == /\ pc = "open"
        /\ warned' = (w.cmd = "copy" /\ InDev(w.place) /\ BUG # "nowarn")
        /\ UNCHANGED <<w, n>>
        /\ IF w.place \in Bads
           THEN IF BUG = "mkdirs" /\ w.place = "nodir" THEN /\ ent' = [ent EXCEPT !.D = Node("b")] /\ at' = "b" /\ pc' = "write" /\ UNCHANGED <<data, perm, o, said>>
                ELSE IF BUG = "nofollow" /\ w.place = "loop" THEN /\ ent' = [ent EXCEPT !.P = Node("b")] /\ at' = "b" /\ pc' = "write" /\ UNCHANGED <<data, perm, o, said>>
                ELSE Fail(FALSE) /\ UNCHANGED <<data, perm, at>>
           ELSE LET q == IF BUG = "nofollow" THEN "P" ELSE Follow(ent, "P", 3)
                    e == ent[q]
                IN /\ UNCHANGED <<o, said>> /\ pc' = "write"
                   /\ IF e.k = "dev" THEN at' = e.to /\ UNCHANGED <<ent, data, perm>>
                      ELSE IF e.k = "node" /\ BUG \notin {"unlink", "rename"}
                      THEN /\ at' = "a" /\ UNCHANGED ent /\ data' = [data EXCEPT !.a = IF BUG = "keep" THEN @ ELSE Empty]
                           /\ perm' = IF BUG = "chmod" THEN [perm EXCEPT !.a = "new"] ELSE perm
                      ELSE /\ at' = "b" /\ ent' = [ent EXCEPT ![IF BUG = "rename" THEN "P" ELSE q] = Node("b")] /\ UNCHANGED <<data, perm>>
\* one piece after the other; holes are not written
Write == /\ pc = "write" /\ UNCHANGED <<w, at, perm, warned>>
         /\ LET stop == IF w.bad = "cut" /\ w.map THEN PIECES - 1 ELSE PIECES
            IN IF w.bad = "sum" /\ w.map /\ w.verify /\ n = 2 THEN Fail(TRUE) /\ UNCHANGED <<data, n>>
               ELSE IF n >= stop THEN IF Differs(w) /\ w.map THEN Fail(TRUE) /\ UNCHANGED <<data, n>> ELSE pc' = "size" /\ UNCHANGED <<ent, data, n, o, said>>
               ELSE IF at = "full" /\ BUG # "swallow" THEN Fail(TRUE) /\ UNCHANGED <<data, n>>
               ELSE /\ data' = IF at \in {"a", "b"} THEN [data EXCEPT ![at][n] = IF w.bad = "sum" THEN "odd" ELSE "new"] ELSE data
                    /\ n' = n + 1 /\ UNCHANGED <<ent, pc, o, said>>
Size == /\ pc = "size" /\ pc' = "sync"
        /\ data' = IF at \in {"a", "b"} /\ BUG # "nosize"
                   THEN [data EXCEPT ![at] = [i \in 1..(PIECES + 1) |-> IF i > PIECES THEN (IF BUG = "keep" THEN @[i] ELSE "end") ELSE IF @[i] = "end" THEN "zero" ELSE @[i]]] ELSE data
        /\ UNCHANGED <<w, ent, perm, at, n, o, warned, said>>
Sync == /\ pc = "sync" /\ UNCHANGED <<w, data, perm, at, n, warned>>
        /\ IF (at = "null" /\ BUG = "syncnull") \/ (at = "full" /\ BUG # "swallow") THEN Fail(TRUE)
           ELSE o' = "ok" /\ pc' = "end" /\ UNCHANGED <<ent, said>>
Next == Open \/ Write \/ Size \/ Sync
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the result, as it is seen from outside
Where(e) == LET q == Follow(e, "P", 3) IN IF q = "loop" THEN None ELSE e[q]
Held == LET e == Where(ent) IN IF w.place \in Bads THEN (IF ent = Start(w.place) /\ data.a = Old(w.place) THEN "old" ELSE "wrong")
                               ELSE IF e.k # "node" THEN "none" ELSE IF data[e.to] = Image THEN "right" ELSE IF data[e.to] = Old(w.place) THEN "old" ELSE "wrong"
Result == [o |-> o, data |-> Held,
           node |-> LET a == Where(Start(w.place)) b == Where(ent) IN IF a = b THEN "same" ELSE IF b.k = "none" THEN "none" ELSE "other",
           links |-> \A x \in DOMAIN ent : Start(w.place)[x].k = "link" => ent[x] = Start(w.place)[x],
           mode |-> perm.a = "own",
           others |-> ent.O = Start(w.place).O /\ ent.D = None,
           said |-> said, warned |-> warned]
Right == pc = "end" => Viol(w, Result) = {}
Ends == <>(pc = "end")
=============================================================================
