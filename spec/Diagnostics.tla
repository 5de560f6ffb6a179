------------------------------ MODULE Diagnostics ----------------------------
(* What is said while files are parsed. The level in force decides what is    *)
(* heard and nothing else: a parse's result is its content's alone. A reader  *)
(* walks down the file; whatever it says while it is at a line carries the    *)
(* name of the file and that line's number.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,    \* of contents: some are spoken of, some are not, one is to be warned of
          Names,    \* of files: the characters they hold
          Routes

Levels == <<"DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL">>
All == {Levels[k] : k \in 1..Len(Levels)}
Rank(l) == CHOOSE k \in 1..Len(Levels) : Levels[k] = l
\* the levels at which something is said of a content of this kind
Said(kind) == CASE kind = "listing" -> {"DEBUG", "INFO"}      \* .castep: its lines, and what is found
                [] kind = "input" -> {"INFO"}                 \* .cell and .param: what is found
                [] kind = "headless" -> {"WARNING"}           \* a trajectory without its header
                [] OTHER -> {}

VARIABLES level,    \* the level in force
          heard,    \* the levels of what the last parse let be heard
          result    \* of the last parse: its content
vars == <<level, heard, result>>
Out(op) == PrintT(ToJson([s |-> vars, o |-> op, x |-> heard', t |-> vars']))

Init == level = "WARNING" /\ heard = {} /\ result = "-"
Choose(l) == l # level /\ level' = l /\ heard' = {} /\ result' = "-" /\ Out(<<"level", l>>)
Parse(k, name, route) == /\ heard' = {l \in Said(k) : Rank(l) >= Rank(level)}
                         /\ result' = k /\ UNCHANGED level
                         /\ Out(<<"parse", k, name, route>>)
Next == \/ \E l \in All : Choose(l)
        \/ \E k \in Kinds, name \in Names, route \in Routes : Parse(k, name, route)
Spec == Init /\ [][Next]_vars

Quiet == \A l \in heard : Rank(l) >= Rank(level)
\* raising the level never lets more be heard, and never changes a result
Same == [][result' # "-" => heard' = {l \in Said(result') : Rank(l) >= Rank(level')}]_vars
==============================================================================
