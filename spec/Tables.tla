------------------------------- MODULE Tables --------------------------------
(* Files whose body is a table: formatted grids (.den_fmt, .elf_fmt, .pot_fmt,*)
(* .chdiff_fmt), structure factors (.xrd_sf), Hugoniot points (.hug),         *)
(* electron-phonon couplings (.epme), error reports (.err) and TDDFT          *)
(* excitations (.tddft), read row by row.                                     *)
EXTENDS Doc

CONSTANTS Format, MaxRows, MaxGroups, Faults,
          Least       \* tables have at least this many rows

VARIABLES doc, acc, cur, st, open, err
vars == <<doc, acc, cur, st, open, err>>
NR == Len(doc) + 1
AddRows(rows) == doc' = doc \o rows
Add(t, a) == AddRows(<<Row(t, a)>>)

Init == /\ doc = <<>> /\ acc = Empty /\ cur = Empty /\ st = "head" /\ open = FALSE /\ err = "-"

-----------------------------------------------------------------------------
(* formatted grids: the header's last line names the data columns *)
GridFormats == {"den_fmt", "chdiff_fmt", "pot_fmt", "elf_fmt"}
GridCols == [den_fmt |-> {<<"charge">>, <<"charge", "spin">>}, chdiff_fmt |-> {<<"charge">>, <<"charge", "spin">>},
             pot_fmt |-> {<<"pot">>, <<"pot", "spin_pot">>}, elf_fmt |-> {<<"chi">>, <<"chi_alpha", "chi_beta">>}]

GridHead ==
  /\ Format \in GridFormats /\ st = "head"
  /\ \E cols \in GridCols[Format] :
       /\ AddRows(<<Row("g_head", <<Len(cols)>>), Row("g_end", <<cols>>), Row("blank", <<>>)>>)
       /\ cur' = [cols |-> cols]
  /\ acc' = [rows |-> <<>>] /\ st' = "grid" /\ UNCHANGED <<open, err>>
GridRow ==
  /\ st = "grid" /\ Len(acc.rows) < MaxRows
  /\ Add("g_row", <<Len(cur.cols)>>)
  /\ acc' = Push(acc, "rows", NR) /\ UNCHANGED <<cur, st, open, err>>
GridBlank == /\ st = "grid" /\ doc[Len(doc)][1] = "g_row" /\ Add("blank", <<>>)
             /\ UNCHANGED <<acc, cur, st, open, err>>
\* a row with one value too many or too few for the columns named in the header
GridBad == /\ st = "grid" /\ Faults /\ err = "-" /\ Len(acc.rows) < MaxRows
           /\ \E k \in {Len(cur.cols) - 1, Len(cur.cols) + 1} : Add("g_row", <<k>>)
           /\ acc' = Push(acc, "rows", NR) /\ err' = "a grid row does not have the declared columns"
           /\ UNCHANGED <<cur, st, open>>
GridEnd == /\ st = "grid" /\ Len(acc.rows) >= Least /\ st' = "done" /\ UNCHANGED <<doc, acc, cur, open, err>>
GridResult ==
  ("q" :> [k \in 1..Len(acc.rows) |-> <<I(acc.rows[k], "a"), I(acc.rows[k], "b"), I(acc.rows[k], "c")>>])
  @@ [c \in {cur.cols[k] : k \in 1..Len(cur.cols)} |->
        LET j == CHOOSE j \in 1..Len(cur.cols) : cur.cols[j] = c IN [k \in 1..Len(acc.rows) |-> F(acc.rows[k], j)]]

-----------------------------------------------------------------------------
(* structure factors: the header names pairs of columns, in any order and selection *)
SFactors == {"F_PAW", "F_IAM", "F_PP", "F_core", "F_soft", "F_aug"}
Lower == [F_PAW |-> "f_paw", F_IAM |-> "f_iam", F_PP |-> "f_pp", F_core |-> "f_core", F_soft |-> "f_soft", F_aug |-> "f_aug"]
XrdHead ==
  /\ Format = "xrd_sf" /\ st = "head"
  /\ \E cols \in {c \in SeqsOf(SFactors, 1, 6) : \A i, j \in DOMAIN c : i # j => c[i] # c[j]} :
       /\ Len(cols) \in {1, 2, 6} /\ (Len(cols) = 6 => cols[1] \in {"F_PAW", "F_aug"})
       /\ Add("x_head", <<cols>>) /\ cur' = [cols |-> cols]
  /\ acc' = [rows |-> <<>>] /\ st' = "xrd" /\ UNCHANGED <<open, err>>
XrdRow == /\ st = "xrd" /\ Len(acc.rows) < MaxRows /\ Add("x_row", <<Len(cur.cols)>>)
          /\ acc' = Push(acc, "rows", NR) /\ UNCHANGED <<cur, st, open, err>>
XrdEnd == /\ st = "xrd" /\ Len(acc.rows) >= Least /\ st' = "done" /\ UNCHANGED <<doc, acc, cur, open, err>>
XrdResult ==
  ("qvec" :> [k \in 1..Len(acc.rows) |-> <<I(acc.rows[k], "h"), I(acc.rows[k], "k"), I(acc.rows[k], "l")>>])
  @@ [c \in {Lower[cur.cols[k]] : k \in 1..Len(cur.cols)} |->
        LET j == CHOOSE j \in 1..Len(cur.cols) : Lower[cur.cols[j]] = c
        IN [k \in 1..Len(acc.rows) |-> C2(acc.rows[k], <<"re", j>>, <<"im", j>>)]]

-----------------------------------------------------------------------------
HugRow == /\ Format = "hug" /\ st = "head" /\ NR <= MaxRows /\ Add("hug", <<>>)
          /\ acc' = Push(Push(Push(Push(acc, "compression", F(NR, 1)), "temperature", F(NR, 2)),
                              "pressure", F(NR, 3)), "energy", F(NR, 4))
          /\ UNCHANGED <<cur, st, open, err>>
HugEnd == /\ Format = "hug" /\ st = "head" /\ NR > Least /\ st' = "done" /\ UNCHANGED <<doc, acc, cur, open, err>>

-----------------------------------------------------------------------------
EpmeHead == /\ Format = "epme" /\ st = "head" /\ Add("e_head", <<>>)
            /\ acc' = [version |-> I(1, "v"), volume |-> F(1, "vol"), fermi_energy |-> F(1, "ef"),
                       n_bands |-> I(1, "nb"), n_branches |-> I(1, "np"), rows |-> <<>>]
            /\ cur' = [pairs |-> 0, row |-> 0, q |-> 0] /\ st' = "pair" /\ UNCHANGED <<open, err>>
EpmePair == /\ st \in {"pair", "coup"} /\ cur.pairs < MaxGroups /\ (cur.pairs > 0 => cur.row > 0)
            /\ AddRows(<<Row("e_pair", <<>>)>>)
            /\ cur' = [pairs |-> cur.pairs + 1, row |-> 0, q |-> NR] /\ st' = "coup" /\ UNCHANGED <<acc, open, err>>
EpmeRow == /\ st = "coup" /\ cur.row < MaxRows /\ Add("e_row", <<>>)
           /\ acc' = Push(acc, "rows", <<NR, cur.q>>) /\ cur' = [cur EXCEPT !.row = @ + 1] /\ UNCHANGED <<st, open, err>>
EpmeEnd == /\ st = "coup" /\ cur.row > 0 /\ Len(acc.rows) >= Least /\ st' = "done" /\ UNCHANGED <<doc, acc, cur, open, err>>
Coupling(r, q) == [kpt_i |-> Vec(q, 3), kpt_f |-> VecFrom(q, 4, 6), ph_index |-> I(r, "p"), band_i |-> I(r, "i"), band_f |-> I(r, "f")]
EpmeResult(right) ==
  Put(Without(acc, {"rows"}), "data",
      [k \in 1..Len(acc.rows) |-> LET r == acc.rows[k][1] IN
         Coupling(r, acc.rows[k][2]) @@
         IF right THEN [freq |-> F(r, 4), e_i |-> F(r, 5), e_f |-> F(r, 6),
                        velocity |-> <<VecFrom(r, 7, 9), VecFrom(r, 10, 12)>>, e_p_matrix |-> C2(r, 13, 14)]
         ELSE \* the reader does not know of the frequency column
              [e_i |-> F(r, 4), e_f |-> F(r, 5), velocity |-> <<VecFrom(r, 6, 8), VecFrom(r, 9, 11)>>, e_p_matrix |-> C2(r, 12, 13)]])

-----------------------------------------------------------------------------
ErrMsg == /\ Format = "err" /\ st = "head" /\ NR <= MaxGroups + 2 /\ Add("r_msg", <<>>)
          /\ acc' = Push(acc, "message", S(NR, 1)) /\ UNCHANGED <<cur, st, open, err>>
ErrBlank == /\ Format = "err" /\ st = "head" /\ doc # <<>> /\ doc[Len(doc)][1] = "r_msg" /\ Add("blank", <<>>)
            /\ acc' = Push(acc, "message", Lit("")) /\ UNCHANGED <<cur, st, open, err>>
\* blank lines at either end of the message are not part of it
Trim(l) == IF l # <<>> /\ doc[Len(l)][1] = "blank" THEN SubSeq(l, 1, Len(l) - 1) ELSE l
ErrTrace == /\ Format = "err" /\ st = "head" /\ Add("r_trace", <<>>)
            /\ acc' = Put(Put(acc, "message", Join(Trim(Get(acc, "message", <<>>)))), "stack", <<>>)
            /\ st' = "stack" /\ UNCHANGED <<cur, open, err>>
ErrStack == /\ st = "stack" /\ Len(acc.stack) < MaxRows /\ Add("r_stack", <<>>)
            /\ acc' = Push(acc, "stack", S(NR, 1)) /\ UNCHANGED <<cur, st, open, err>>
ErrEnd == /\ st = "stack" /\ Len(acc.stack) + 1 >= Least /\ st' = "done" /\ UNCHANGED <<doc, acc, cur, open, err>>

-----------------------------------------------------------------------------
TdHead == /\ Format = "tddft" /\ st = "head"
          /\ \E n \in 1..2 :
               /\ AddRows(<<Row("t_begin", <<>>), Row("cellhead", <<>>), Row("vec", <<>>), Row("vec", <<>>), Row("vec", <<>>),
                            Row("frac", <<>>)>> \o [k \in 1..n |-> Row("t_atom", <<"@sp1", k>>)])
               /\ acc' = [unit_cell |-> Rows(3, 3, 3), coords |-> Map([k \in 1..n |-> << <<"@sp1", k>>, Vec(6 + k, 3)>>])]
          /\ open' = TRUE /\ st' = "t_headend" /\ UNCHANGED <<cur, err>>
TdHeadEnd == st = "t_headend" /\ Add("t_end", <<>>) /\ open' = FALSE /\ st' = "t_char" /\ UNCHANGED <<acc, cur, err>>
TdNoChar == st = "t_char" /\ st' = "t_spec" /\ UNCHANGED <<doc, acc, cur, open, err>>
TdChar == /\ st = "t_char" /\ Add("t_charb", <<>>) /\ open' = TRUE /\ st' = "t_state"
          /\ acc' = Put(acc, "overlap", <<>>) /\ cur' = [pairs |-> <<>>] /\ UNCHANGED err
TdState == /\ st = "t_state" /\ Len(acc.overlap) < MaxGroups /\ Len(cur.pairs) < MaxRows
           /\ LET n == Len(cur.pairs) + 1 IN
              /\ Add("t_pair", <<Len(acc.overlap) + 1, 7 * n, 7 * n + 12>>)
              /\ cur' = Push(cur, "pairs", << <<7 * n, 7 * n + 12>>, F(NR, 1)>>)
           /\ UNCHANGED <<acc, st, open, err>>
TdTotal == /\ st = "t_state" /\ Len(acc.overlap) < MaxGroups /\ Add("t_total", <<Len(acc.overlap) + 1>>)
           /\ acc' = Push(acc, "overlap", Map(Append(cur.pairs, <<"total", F(NR, 1)>>)))
           /\ cur' = [pairs |-> <<>>] /\ UNCHANGED <<st, open, err>>
TdCharEnd == /\ st = "t_state" /\ cur.pairs = <<>> /\ Len(acc.overlap) >= (IF Least < MaxGroups THEN Least ELSE MaxGroups) /\ Add("t_chare", <<>>)
             /\ open' = FALSE /\ st' = "t_spec" /\ UNCHANGED <<acc, cur, err>>
TdSpec == /\ st = "t_spec" /\ Add("t_specb", <<>>) /\ open' = TRUE /\ st' = "t_exc"
          /\ acc' = Put(acc, "spectroscopic_data", <<>>) /\ UNCHANGED <<cur, err>>
TdExc == /\ st = "t_exc" /\ Len(acc.spectroscopic_data) < MaxRows
         /\ \E ch \in {"Singlet", "Triplet", "unknown"}, conv \in BOOLEAN, dark \in {{}, {2}, {3, 4}, {2, 3, 4}} :
              /\ (dark # {} => (conv /\ ch = "Singlet"))     \* transitions may have no moment at all
              /\ Add("t_exc", <<Len(acc.spectroscopic_data) + 1, ch, conv, dark>>)
              /\ acc' = Push(acc, "spectroscopic_data",
                  [energy |-> F(NR, 1), characterisation |-> ch, converged |-> conv, dipoles |-> <<C(NR, 2), C(NR, 3), C(NR, 4)>>])
         /\ UNCHANGED <<cur, st, open, err>>
TdSpecEnd == /\ st = "t_exc" /\ Len(acc.spectroscopic_data) >= Least /\ Add("t_spece", <<>>)
             /\ open' = FALSE /\ st' = "done" /\ UNCHANGED <<acc, cur, err>>
TdNoSpec == /\ st = "t_spec" /\ st' = "done" /\ UNCHANGED <<doc, acc, cur, open, err>>

-----------------------------------------------------------------------------
Cut == /\ Faults /\ open /\ err = "-" /\ err' = "file ends inside a section" /\ st' = "done"
       /\ UNCHANGED <<doc, acc, cur, open>>

Next == GridHead \/ GridRow \/ GridBlank \/ GridBad \/ GridEnd \/ XrdHead \/ XrdRow \/ XrdEnd \/ HugRow \/ HugEnd
        \/ EpmeHead \/ EpmePair \/ EpmeRow \/ EpmeEnd \/ ErrMsg \/ ErrBlank \/ ErrTrace \/ ErrStack \/ ErrEnd
        \/ TdHead \/ TdHeadEnd \/ TdNoChar \/ TdChar \/ TdState \/ TdTotal \/ TdCharEnd \/ TdSpec \/ TdExc \/ TdSpecEnd \/ TdNoSpec
        \/ Cut
Spec == Init /\ [][Next]_vars

Result ==
  CASE Format \in GridFormats -> GridResult
    [] Format = "xrd_sf" -> XrdResult
    [] Format = "epme" -> EpmeResult(TRUE)
    [] OTHER -> acc

Deviations == IF Format = "epme" THEN << <<"epme-frequency-column", EpmeResult(FALSE)>> >> ELSE <<>>

\* every data row of the document is accounted for exactly once in the result
RowsKept ==
  (st = "done" /\ err = "-") =>
    LET count(t) == Cardinality({k \in 1..Len(doc) : doc[k][1] = t}) IN
    CASE Format \in GridFormats -> Len(acc.rows) = count("g_row")
      [] Format = "xrd_sf" -> Len(acc.rows) = count("x_row")
      [] Format = "hug" -> Len(acc.energy) = count("hug")
      [] Format = "epme" -> Len(acc.rows) = count("e_row")
      [] Format = "err" -> Len(acc.stack) = count("r_stack")
      [] Format = "tddft" -> Len(Get(acc, "spectroscopic_data", <<>>)) = count("t_exc")
                             /\ Len(Get(acc, "overlap", <<>>)) = count("t_total")
Emit == (st = "done" /\ (Faults => err # "-")) =>
          PrintT(ToJson([doc |-> doc] @@ IF err = "-" THEN [exp |-> Result, dev |-> Deviations] ELSE [err |-> err]))
=============================================================================
