------------------------------- MODULE Remains -------------------------------
(* What is left when the command has ended. The command has helper processes *)
(* (a decompressor for the image, ssh for its source, a second decompressor  *)
(* for a compressed bmap) joined by pipes, and temporary files (a copy of a  *)
(* downloaded bmap and of a signature, the bmap of `create` without output,  *)
(* a probe next to the image). It may end at any point: done, refused,       *)
(* failed or interrupted. The kernel closes its ends of the pipes; a helper  *)
(* ends at the end of its input or when nobody reads its output any more.    *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS MaxData,  \* data of a source
          BUG       \* "none"; "inherit" (helpers inherit the pipe ends of the command), "ignorepipe" (a helper ignores the closed pipe),
                    \* "stalled" (the source delivers no more, the helper is not killed), "named" (a named temporary file without finalizer)

H == {"source", "image", "bmap"}        \* helpers: source feeds image
P == {"main"} \cup H
T == {"bmapcopy", "sigcopy", "probe", "output"}
Anonymous == {"probe", "output"}

VARIABLES main,     \* "run", "ended"
          phase,    \* what the command has set up
          h,        \* state of every helper: off, run, ended
          left,     \* data a helper can still get from its own source
          rd, wr,   \* per output pipe of a helper: the processes holding its ends
          buf,      \* data in the pipe
          files     \* names of temporary files that exist
vars == <<main, phase, h, left, rd, wr, buf, files>>

Init == /\ main = "run" /\ phase = {} /\ h = [x \in H |-> "off"] /\ left = [x \in H |-> MaxData]
        /\ rd = [x \in H |-> {}] /\ wr = [x \in H |-> {}] /\ buf = [x \in H |-> 0] /\ files = {}

Held(p) == {x \in H : p \in rd[x]}
Input(x) == IF x = "image" /\ "source" \in phase THEN "source" ELSE "file"

\* the command starts a helper: the helper has the write end of its pipe and the read end of its input, the command reads
Start(x) == /\ main = "run" /\ x \notin phase /\ (x = "source" => "image" \notin phase)
            /\ phase' = phase \cup {x} /\ h' = [h EXCEPT ![x] = "run"]
            /\ wr' = [wr EXCEPT ![x] = {x}]
            /\ rd' = [y \in H |-> IF y = x THEN {"main"} \cup (IF BUG = "inherit" THEN {x} ELSE {})
                                  ELSE rd[y] \cup (IF (x = "image" /\ y = "source") \/ (BUG = "inherit" /\ "main" \in rd[y]) THEN {x} ELSE {})]
            /\ UNCHANGED <<main, left, buf, files>>

Die(x) == /\ h' = [h EXCEPT ![x] = "ended"]
          /\ rd' = [y \in H |-> rd[y] \ {x}] /\ wr' = [y \in H |-> wr[y] \ {x}]

\* a helper takes some input and puts out some data
Work(x) == /\ h[x] = "run"
           /\ LET in == Input(x)
                  end == IF in = "file" THEN left[x] = 0 ELSE buf[in] = 0 /\ wr[in] = {}
                  have == IF in = "file" THEN left[x] > 0 /\ ~(BUG = "stalled" /\ left[x] = 1) ELSE buf[in] > 0
              IN IF end THEN Die(x) /\ UNCHANGED <<left, buf>>
                 ELSE IF ~have THEN FALSE
                 ELSE IF rd[x] = {} THEN IF BUG = "ignorepipe" THEN FALSE ELSE Die(x) /\ UNCHANGED <<left, buf>>
                 ELSE /\ buf[x] = 0
                      /\ buf' = [y \in H |-> IF y = x THEN 1 ELSE IF y = in THEN buf[y] - 1 ELSE buf[y]]
                      /\ left' = IF in = "file" THEN [left EXCEPT ![x] = @ - 1] ELSE left
                      /\ UNCHANGED <<h, rd, wr>>
           /\ UNCHANGED <<main, phase, files>>

\* the command reads (only the last helper of a chain)
Reads(x) == /\ main = "run" /\ "main" \in rd[x] /\ buf[x] > 0 /\ ~(x = "source" /\ "image" \in phase)
            /\ buf' = [buf EXCEPT ![x] = 0] /\ UNCHANGED <<main, phase, h, left, rd, wr, files>>

Temp(t) == /\ main = "run" /\ t \notin phase /\ phase' = phase \cup {t}
           /\ files' = IF t \in Anonymous /\ BUG # "named" THEN files ELSE files \cup {t}
           /\ UNCHANGED <<main, h, left, rd, wr, buf>>
Drop(t) == /\ main = "run" /\ t \in files /\ files' = files \ {t} /\ UNCHANGED <<main, phase, h, left, rd, wr, buf>>

\* the end, wherever the command is; finalizers remove the named temporary files
End == /\ main = "run" /\ main' = "ended"
       /\ rd' = [y \in H |-> rd[y] \ {"main"}] /\ wr' = [y \in H |-> wr[y] \ {"main"}]
       /\ files' = IF BUG = "named" THEN files \cap Anonymous ELSE {}
       /\ UNCHANGED <<phase, h, left, buf>>

Next == (\E x \in H : Start(x) \/ Work(x) \/ Reads(x)) \/ (\E t \in T : Temp(t) \/ Drop(t)) \/ End
Spec == Init /\ [][Next]_vars /\ \A x \in H : WF_vars(Work(x))

NoFiles == main = "ended" => files = {}
NoProcesses == (main = "ended") ~> (\A x \in H : h[x] # "run")
\* a working helper is never stuck for another reason than its reader
Sane == \A x \in H : h[x] = "ended" => x \notin UNION {wr[y] : y \in H}
=============================================================================
