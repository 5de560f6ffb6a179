------------------------------- MODULE Records -------------------------------
(* A cursor over the records of a Fortran sequential unformatted file.        *)
(*                                                                            *)
(* recs   the records: <<type, multiplicity>>, multiplicity 0 (empty payload),*)
(*        1, or 2 standing for "many"                                         *)
(* pos    records before the cursor;  beyond: skipped past the last record    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Kinds

VARIABLES recs, pos, beyond
vars == <<recs, pos, beyond>>

L == Len(recs)
KindSet == CASE Kinds = "all" -> {<<"int", 1>>, <<"int", 2>>, <<"float", 1>>, <<"float", 2>>, <<"cplx", 1>>,
                                   <<"cplx", 2>>, <<"bool", 1>>, <<"bool", 2>>, <<"str", 2>>, <<"int", 0>>}
             [] Kinds = "few" -> {<<"int", 1>>, <<"float", 2>>, <<"str", 2>>, <<"int", 0>>}
             [] Kinds = "two" -> {<<"cplx", 2>>, <<"bool", 1>>}

Out(op, obs) == PrintT(ToJson([s |-> vars, o |-> op, x |-> obs, t |-> vars']))

Init == /\ recs \in UNION {[1..k -> KindSet] : k \in 0..MaxLen}
        /\ pos = 0 /\ beyond = FALSE

Span(k) == [j \in 1..k |-> pos + j]

Move(n) == pos' = pos + n /\ UNCHANGED <<recs, beyond>>
Stay == UNCHANGED vars

\* the next record, whole
NextRaw == IF pos < L THEN Move(1) /\ Out(<<"next">>, <<"raw", pos + 1>>)
           ELSE Stay /\ Out(<<"next">>, <<"Stop">>)

\* a scalar of the record's own type: exactly one element must be there
GetOne == IF pos < L
          THEN /\ Move(1)
               /\ Out(<<"get", recs[pos + 1][1]>>,
                      IF recs[pos + 1][1] = "str" \/ recs[pos + 1][2] = 1 THEN <<"one", pos + 1>> ELSE <<"ValueError">>)
          ELSE Stay /\ Out(<<"get", "int">>, <<"Stop">>)

GetMany == IF pos < L
           THEN Move(1) /\ Out(<<"getall", recs[pos + 1][1]>>, <<"many", pos + 1>>)
           ELSE Stay /\ Out(<<"getall", "float">>, <<"Stop">>)

\* moves by n records in either direction, inside the file
Skip(n) == /\ ~beyond /\ pos + n \in 0..L
           /\ Move(n) /\ Out(<<"skip", n>>, <<"ok">>)
Rewind(n) == /\ ~beyond /\ pos - n \in 0..L
             /\ Move(-n) /\ Out(<<"rewind", n>>, <<"ok">>)
RewindOne == /\ ~beyond /\ pos > 0
             /\ Move(-1) /\ Out(<<"rewind1">>, <<"ok">>)

\* moving past the last record: nothing more to read
Overrun == /\ ~beyond
           /\ pos' = L /\ beyond' = TRUE /\ UNCHANGED recs
           /\ Out(<<"skip", L - pos + 2>>, <<"ok">>)

\* structured reads take exactly as many records as they have names
Types(k) == [j \in 1..k |-> recs[pos + j][1]]
Dict(k) == /\ pos + k <= L
           /\ Move(k) /\ Out(<<"dict", Types(k)>>, <<"each", Span(k)>>)
Iter(k) == /\ pos + k <= L
           /\ Move(k) /\ Out(<<"iter", Types(k)>>, <<"each", Span(k)>>)
For(k) == /\ Move(IF pos + k <= L THEN k ELSE L - pos)
          /\ Out(<<"for", k>>, <<"raws", Span(IF pos + k <= L THEN k ELSE L - pos)>>)

\* a cycle reads one group per step, and leaves the rest to others
Periodic(k, n) == pos + k <= L /\ pos + n * k <= L /\ \A j \in 1..(n * k - k) : recs[pos + j][1] = recs[pos + j + k][1]
Cycle(k, n, form) == /\ Periodic(k, n) /\ Move(n * k)
                     /\ Out(<<"cycle", form, n, Types(k)>>,
                            <<"groups", [g \in 1..n |-> [j \in 1..k |-> pos + (g - 1) * k + j]]>>)
\* an unbounded cycle from which only n groups are taken
Endless(k, n, form) == /\ Periodic(k, n) /\ Move(n * k)
                       /\ Out(<<"endless", form, n, Types(k)>>,
                              <<"groups", [g \in 1..n |-> [j \in 1..k |-> pos + (g - 1) * k + j]]>>)

Next == \/ NextRaw \/ GetOne \/ GetMany \/ RewindOne \/ Overrun
        \/ \E n \in -L..L : Skip(n)
        \/ \E n \in 0..L : Rewind(n)
        \/ \E k \in 1..3 : Dict(k) \/ Iter(k)
        \/ \E k \in 0..2 : For(k)
        \/ \E k \in 1..2, n \in 0..2, f \in {"dict", "tuple"} : Cycle(k, n, f) \/ (n > 0 /\ Endless(k, n, f))

Spec == Init /\ [][Next]_vars

TypeOK == pos \in 0..L
Fixed == [][recs' = recs]_vars
=============================================================================
