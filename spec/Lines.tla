-------------------------------- MODULE Lines --------------------------------
(* A cursor over the lines of a text (file or in-memory block), and the       *)
(* extraction of delimited blocks from it.                                    *)
(*                                                                            *)
(* text   classes of the lines: "s" matches the start pattern, "e" the end    *)
(*        pattern, "b" both, "o" neither, "w" neither and blank               *)
(* pos    number of lines delivered and not stepped back over                 *)
(* back   files only: the last line can be re-delivered                       *)
(* init   index of the line just delivered (a block may start there), or 0    *)
(* eof    the reader has been told there is nothing more                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Kind,        \* "file" or "block"
          MaxLen,      \* longest text
          Classes,     \* line classes in use
          Extracts     \* enumerate extraction operations too

VARIABLES text, pos, back, init, eof
vars == <<text, pos, back, init, eof>>

L == Len(text)

Out(op, obs) ==
  PrintT(ToJson([s |-> vars, o |-> op, x |-> obs, t |-> vars']))

Texts == UNION {[1..k -> Classes] : k \in 0..MaxLen}

Init == /\ text \in Texts
        /\ pos = 0 /\ back = FALSE /\ init = 0 /\ eof = FALSE

-----------------------------------------------------------------------------
\* Read one line
NextLine ==
  IF pos < L
  THEN /\ pos' = pos + 1 /\ back' = TRUE /\ init' = pos + 1 /\ eof' = FALSE
       /\ UNCHANGED text
       /\ Out(<<"next">>, <<"line", pos + 1>>)
  ELSE /\ back' = FALSE /\ init' = 0 /\ eof' = TRUE
       /\ UNCHANGED <<text, pos>>
       /\ Out(<<"next">>, <<"Stop">>)

\* Files step back over the last line delivered, at most once.
RewindFile ==
  /\ Kind = "file"
  /\ pos' = IF back THEN pos - 1 ELSE pos
  /\ back' = FALSE /\ init' = 0
  /\ UNCHANGED <<text, eof>>
  /\ Out(<<"rewind">>, <<"ok">>)

\* Blocks step back as far as their first line.
RewindBlock ==
  /\ Kind = "block" /\ ~eof
  /\ IF pos = 0 THEN /\ UNCHANGED vars
                     /\ Out(<<"rewind">>, <<"ValueError">>)
     ELSE /\ pos' = pos - 1 /\ init' = 0
          /\ UNCHANGED <<text, back, eof>>
          /\ Out(<<"rewind">>, <<"ok">>)

\* The reported line number is the number of the last line delivered.
LineNo == /\ ~eof /\ UNCHANGED vars
          /\ Out(<<"lineno">>, <<"int", pos>>)

\* A diagnostic names the source and that line.
Diag == /\ ~eof /\ UNCHANGED vars
        /\ Out(<<"log">>, <<"int", pos>>)

\* A whole block never changes under its cursor.
Whole == /\ Kind = "block" /\ UNCHANGED vars
         /\ Out(<<"whole">>, <<"lines", [k \in 1..L |-> k]>>)

-----------------------------------------------------------------------------
IsStart(i) == text[i] \in {"s", "b"}
IsEnd(i) == text[i] \in {"e", "b"}

EndsAfter(i) == SetToSortSeq({j \in (i + 1)..L : IsEnd(j)}, <)

\* data[f : -b or None]
Strip(l, f, b) == SubSeq(l, f + 1, Len(l) - b)

Span(i, j) == [k \in 1..(j - i + 1) |-> i + k - 1]

Truthy(l) == \E k \in 1..Len(l) : text[l[k]] # "w"

BlockObs(l) == <<"block", l, Truthy(l)>>

Extract(nend, eofok, f, b) ==
  LET ends == EndsAfter(init)
      op == <<"extract", nend, eofok, f, b>>
  IN /\ init # 0 /\ init = pos
     /\ IF ~IsStart(init)
        THEN UNCHANGED vars /\ Out(op, BlockObs(<<>>))
        ELSE IF Len(ends) >= nend
        THEN /\ pos' = ends[nend] /\ back' = TRUE /\ init' = 0 /\ eof' = FALSE /\ UNCHANGED text
             /\ Out(op, BlockObs(Strip(Span(init, ends[nend]), f, b)))
        ELSE /\ pos' = L /\ back' = FALSE /\ init' = 0 /\ eof' = TRUE /\ UNCHANGED text
             /\ Out(op, IF eofok THEN BlockObs(Strip(Span(init, L), f, b)) ELSE <<"OSError">>)

GetLines(k, eofok) ==
  LET op == <<"get_lines", k, eofok>> IN
  IF k <= L - pos
  THEN /\ pos' = pos + k /\ back' = (back \/ k > 0) /\ init' = (IF k > 0 THEN 0 ELSE init) /\ UNCHANGED <<text, eof>>
       /\ Out(op, BlockObs(Span(pos + 1, pos + k)))
  ELSE /\ pos' = L /\ back' = FALSE /\ init' = 0 /\ eof' = TRUE /\ UNCHANGED text
       /\ Out(op, IF eofok THEN BlockObs(Span(pos + 1, L)) ELSE <<"OSError">>)

Bounds == {<<0, 0>>, <<1, 1>>, <<1, 2>>, <<0, 1>>, <<2, 1>>, <<1, 0>>, <<3, 1>>, <<3, 0>>}

Next ==
  \/ NextLine \/ RewindFile \/ RewindBlock \/ LineNo \/ Diag \/ Whole
  \/ Extracts /\ \/ \E n \in 1..2, e \in BOOLEAN, fb \in Bounds : Extract(n, e, fb[1], fb[2])
                 \/ \E k \in 0..3, e \in BOOLEAN : GetLines(k, e)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == pos \in 0..L /\ init \in 0..L /\ (init # 0 => init <= pos)
TextFixed == [][text' = text]_vars
\* Nothing is skipped: the cursor only ever passes lines it has handed over,
\* and steps back at most one line at a time.
StepsBackOne == [][pos' >= pos - 1]_vars
=============================================================================
