-------------------------------- MODULE Echo ----------------------------------
(* Recorded debug logs of the .castep reader, checked as traces: the reader   *)
(* takes the lines of the file from the top, one by one; those it comes by    *)
(* outside a section it echoes, with their numbers, the rest belong to the    *)
(* sections and pass unsaid. What it says of a section is about one of the    *)
(* section's lines. Lines are told apart by a number for each text.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)     \* [file, outside: text nobody's section holds, log: <<number, text>>, text 0 for a remark]

VARIABLES t, at, said, last     \* trace, lines taken, messages accounted for, last line echoed
vars == <<t, at, said, last>>
File == Traces[t].file
Log == Traces[t].log
Outside(k) == \E j \in 1..Len(Traces[t].outside) : Traces[t].outside[j] = File[k]
More == said < Len(Log)
Remark == More /\ Log[said + 1][2] = 0
Due(k) == More /\ Log[said + 1][1] = k

Init == t \in 1..Len(Traces) /\ at = 0 /\ said = 0 /\ last = 0
Echo == /\ at < Len(File) /\ More
        /\ Log[said + 1] = <<at + 1, File[at + 1]>>
        /\ at' = at + 1 /\ said' = said + 1 /\ last' = at + 1 /\ UNCHANGED t
\* about a line from the last one echoed on: a section may be taken whole before it is spoken of, and its lines echoed after
Report == /\ Remark /\ Log[said + 1][1] \in last..Len(File)
          /\ said' = said + 1 /\ UNCHANGED <<t, at, last>>
\* remarks are not left for later, and a line which is to be said next is not passed by
Pass == /\ at < Len(File) /\ ~Outside(at + 1) /\ ~Remark /\ ~Due(at + 1)
        /\ at' = at + 1 /\ UNCHANGED <<t, said, last>>
Next == Echo \/ Report \/ Pass
Spec == Init /\ [][Next]_vars

\* the traces which are behaviours of the reader, and where the others stop being ones
Whole == at = Len(File) /\ said = Len(Log)
Stuck == ~Whole /\ ~ENABLED Next
Emit == (Whole \/ Stuck) => PrintT(ToJson([t |-> t, ok |-> Whole, at |-> at, said |-> said]))
InOrder == last <= at /\ (last > 0 => File[last] # 0)
==============================================================================
