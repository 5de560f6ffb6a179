--------------------------------- MODULE Doc ---------------------------------
(* Documents as sequences of typed rows, and the results expected of reading  *)
(* them.                                                                      *)
(*                                                                            *)
(* A row is <<template, arguments>>; the concrete text of a row, including    *)
(* the numerals in its columns, is chosen by the renderer.  An expected       *)
(* result is built from                                                       *)
(*   - references F/I/S/C/B(r, c): the float, integer, string, complex,       *)
(*     logical printed in column c of row r,                                  *)
(*   - literal strings, numbers, logicals; strings starting with "@" stand    *)
(*     for a name the renderer chooses once per document,                     *)
(*   - sequences, records (mappings with string keys) and Map(pairs).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

F(r, c) == [ref_ |-> "f", r |-> r, c |-> c]
I(r, c) == [ref_ |-> "i", r |-> r, c |-> c]
S(r, c) == [ref_ |-> "s", r |-> r, c |-> c]
C(r, c) == [ref_ |-> "c", r |-> r, c |-> c]
B(r, c) == [ref_ |-> "b", r |-> r, c |-> c]
Lit(v) == [ref_ |-> "l", v |-> v]
C2(r, re, im) == [cpl_ |-> <<F(r, re), F(r, im)>>]      \* complex printed in two columns
O(r, c) == [ref_ |-> "o", r |-> r, c |-> c]             \* what the renderer says the text of column c stands for
A(r, c) == [ref_ |-> "a", r |-> r, c |-> c]             \* a float computed from printed ones, up to rounding
Cat(parts) == [cat_ |-> parts]
\* a sum of products of printed numbers: terms <<numerator, denominator, <<references>>>>, up to rounding
Calc(terms) == [calc_ |-> terms]
Dec(s) == [dec_ |-> s]                                 \* a decimal literal
Join(lines) == [join_ |-> lines]                       \* lines of text as one string
None == [ref_ |-> "n"]
Map(pairs) == [map_ |-> pairs]

Vec(r, n) == [k \in 1..n |-> F(r, k)]
VecFrom(r, a, b) == [k \in 1..(b - a + 1) |-> F(r, a + k - 1)]
IVec(r, n) == [k \in 1..n |-> I(r, k)]
Rows(r0, rows, n) == [k \in 1..rows |-> Vec(r0 + k - 1, n)]

Row(t, a) == <<t, a>>

\* put a key in a record, or append to the list stored there
Put(m, k, v) == (k :> v) @@ m
Has(m, k) == k \in DOMAIN m
Get(m, k, d) == IF Has(m, k) THEN m[k] ELSE d
Push(m, k, v) == Put(m, k, Append(Get(m, k, <<>>), v))
Empty == [x \in {} |-> 0]
Only(m, keys) == [k \in DOMAIN m \cap keys |-> m[k]]
Without(m, keys) == [k \in DOMAIN m \ keys |-> m[k]]

\* all sequences over S of length lo..hi
SeqsOf(S_, lo, hi) == UNION {[1..n -> S_] : n \in lo..hi}

\* number of references in an expected result, to compare with what was written
=============================================================================
