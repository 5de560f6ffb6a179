------------------------------ MODULE InputFiles -----------------------------
(* .cell and .param files: keywords and blocks in any order, and what each    *)
(* of them must come back as. Comments, blank lines, letter case, separators  *)
(* and the spelling of numbers are the renderer's choice.                     *)
EXTENDS Doc

CONSTANTS Entries,      \* which kinds of entry to write
          MaxItems,     \* entries in the file
          Faults,       \* emit only files which end inside a block
          MaxRows       \* rows of one block (items of a devel_code section)

VARIABLES doc, acc, st, blk, n
vars == <<doc, acc, st, blk, n>>

NR == Len(doc) + 1
No == [kind |-> "-"]
Init == doc = <<>> /\ acc = <<>> /\ st = "top" /\ blk = No /\ n = 0
Nth(sym) == sym \o ToString(n + 1)
Used(key) == \E i \in 1..Len(acc) : acc[i][1] = key
Add(t, a) == doc' = Append(doc, Row(t, a))
Result(key, v, dev) == acc' = Append(acc, <<key, v, dev>>)
CanStart(kind) == st = "top" /\ n < MaxItems /\ kind \in Entries

-----------------------------------------------------------------------------
(* Values: how a sequence of written kinds is typed. *)
Numbers == {"int", "real", "exp", "frac"}
Typed(r, kinds) ==
  LET all(S_) == \A k \in 1..Len(kinds) : kinds[k] \in S_
      one(ref) == IF Len(kinds) = 1 THEN ref[1] ELSE ref
  IN CASE all({"int"}) -> one([k \in 1..Len(kinds) |-> I(r, k)])
       [] all(Numbers) -> one([k \in 1..Len(kinds) |-> F(r, k)])
       [] all({"logical"}) -> B(r, 1)
       [] OTHER -> S(r, 1)
Scalars == {<<"int">>, <<"real">>, <<"exp">>}
Vectors == {<<"int", "int", "int">>, <<"real", "real", "real">>, <<"int", "real", "int">>, <<"exp", "int">>, <<"int", "int">>,
            <<"int", "real", "exp", "real", "int", "int">>}
Words == {<<"logical">>, <<"word">>, <<"text">>, <<"odd">>}

Keyword == /\ CanStart("keyword")
           /\ \E v \in Scalars \cup Vectors \cup Words \cup {<<"frac">>, <<"frac", "int", "frac">>}, unit \in BOOLEAN :
                /\ (unit => v \in Scalars \cup Vectors)
                /\ Add("kw", <<Nth("@kw"), v, unit>>)
                /\ LET val == IF unit THEN <<Typed(NR, v), S(NR, "unit")>> ELSE Typed(NR, v)
                   IN Result(Nth("@kw"), val, val)
           /\ n' = n + 1 /\ UNCHANGED <<st, blk>>

-----------------------------------------------------------------------------
(* Blocks. blk holds what the block's result is made of so far. *)
Open(kind, name, units) ==
  /\ CanStart(kind) /\ ~Used(name)
  /\ doc' = Append(doc, Row("block", <<name>>)) \o (IF units = 0 THEN <<>> ELSE <<Row(IF units = 1 THEN "units" ELSE "units2", <<>>)>>)
  /\ blk' = [kind |-> kind, name |-> name, units |-> IF units = 0 THEN 0 ELSE NR + 1, rows |-> <<>>, species |-> FALSE]
  /\ st' = "block" /\ n' = n + 1 /\ UNCHANGED acc
Rows_ == blk.rows
In(kind) == st = "block" /\ blk.kind = kind /\ Len(Rows_) < MaxRows
Put_(t, a, res) == Add(t, a) /\ blk' = [blk EXCEPT !.rows = Append(@, res)] /\ UNCHANGED <<acc, st, n>>
UnitsOr(d) == IF blk.units = 0 THEN d ELSE S(blk.units, 1)
\* dev: the result recorded as a known finding where it differs (see known_findings.json)
Close2(kind, least, v, dev) == /\ st = "block" /\ blk.kind = kind /\ Len(Rows_) >= least
                               /\ Add("endblock", <<blk.name>>) /\ Result(blk.name, v, dev)
                               /\ st' = "top" /\ blk' = No /\ UNCHANGED n
Close(kind, least, v) == Close2(kind, least, v, v)
\* rows under their labels; several rows of one label stay several
ByLabel(rows) == LET labels == {rows[i][1] : i \in 1..Len(rows)}
                     of(l) == SelectSeq(rows, LAMBDA x : x[1] = l)
                     val(l) == IF Len(of(l)) = 1 THEN of(l)[1][2] ELSE [k \in 1..Len(of(l)) |-> of(l)[k][2]]
                 IN Map(SetToSeq({<<l, val(l)>> : l \in labels}))

(* General blocks: rows of numbers, or one row per species. *)
BreakRow == /\ In("numbers") /\ Len(Rows_) > 0 /\ Rows_[Len(Rows_)][1] # "break" /\ Put_("break", <<>>, <<"break", "BREAK">>)
Broken == \E i \in 1..Len(Rows_) : Rows_[i][1] = "break"
WithUnits(v) == [data |-> v] @@ (IF blk.units = 0 THEN Empty ELSE ("units" :> S(blk.units, 1)))
RowsIn(rows) == [k \in 1..Len(rows) |-> rows[k][2]]
NoBreak == IF Broken THEN [data |-> RowsIn(SelectSeq(Rows_, LAMBDA x : x[1] # "break")), units |-> "BREAK"] ELSE WithUnits(RowsIn(Rows_))
NumRow == /\ In("numbers")
          /\ \E v \in {<<"int">>, <<"real", "real">>, <<"frac", "real", "int">>, <<"real", "exp", "real", "frac">>} :
               Put_("nums", <<v>>, <<"nums", Vec(NR, Len(v))>>)
Label(k) == CASE k = 1 -> "@sp1" [] k = 2 -> "@sp2:tag" [] k = 3 -> "@sp3" [] OTHER -> "@sp" \o ToString(k)
SpRow == /\ In("species")
         /\ \E v \in Scalars \cup Words \cup {<<"frac">>, <<"real", "int", "exp">>}, again \in BOOLEAN :
              /\ (again => Len(Rows_) > 0)
              /\ LET sp == Label(IF again THEN Len(Rows_) ELSE Len(Rows_) + 1)
                 IN Put_("sprow", <<sp, v>>, <<sp, Typed(NR, v)>>)

(* Positions *)
AbsNames == {"positions_abs", "positions_abs_intermediate", "positions_abs_product"}
FracNames == {"positions_frac", "positions_frac_intermediate", "positions_frac_product"}
Atom(k) == CASE k = 1 -> <<"@sp1", 1>> [] k = 2 -> <<"@sp1", 2>> [] k = 3 -> <<"@sp2:tag", 1>> [] k = 4 -> <<"@sp2", 1>>
             [] OTHER -> <<"@sp1", k - 2>>
\* atoms named by their number need not be the first of their kind
Numbered(k) == IF k = 2 THEN <<"@sp1", 12>> ELSE Atom(k)
PosRow == /\ In("positions")
          /\ \E spin \in BOOLEAN, mix \in BOOLEAN :
               LET a == Atom(Len(Rows_) + 1) IN
               Put_("pos", <<a[1], spin, mix>>,
                    <<a, [pos |-> Vec(NR, 3)] @@ (IF spin THEN ("spin" :> F(NR, "spin")) ELSE Empty)
                         @@ (IF mix THEN ("mix_index" :> I(NR, "mix")) @@ ("weight" :> F(NR, "weight")) ELSE Empty)
                         @@ (IF blk.name \in AbsNames THEN ("units" :> UnitsOr("Ang")) ELSE Empty)>>)
PosOpen == (\E nm \in FracNames : Open("positions", nm, 0)) \/ (\E nm \in AbsNames, u \in 0..1 : Open("positions", nm, u))

(* Constraints *)
IonRow == /\ In("ionic")
          /\ \E a \in 1..3 : Put_("ionic", <<Len(Rows_) + 1, Numbered(a)[1], Numbered(a)[2]>>, <<Numbered(a), Vec(NR, 3)>>)
PerAtom == LET atoms == {Rows_[i][1] : i \in 1..Len(Rows_)}
               of(a) == SelectSeq(Rows_, LAMBDA x : x[1] = a)
           IN Map(SetToSeq({<<a, [k \in 1..Len(of(a)) |-> of(a)[k][2]]>> : a \in atoms}))
NonKind(k) == CASE k = 2 -> "distance" [] k = 3 -> "bend" [] OTHER -> "torsion"
NonRow == /\ In("nonlinear")
          /\ \E k \in 2..4, twice \in BOOLEAN :
               /\ (twice => k = 2)
               /\ LET at(j) == IF twice THEN Numbered(1) ELSE Numbered(j) IN
                  Put_("nonlin", <<NonKind(k), [j \in 1..k |-> at(j)]>>,
                       <<NonKind(k), [j \in 1..k |-> <<at(j), [d \in 1..3 |-> I(NR, 10 * j + d)]>>]>>)
Nonlinear(F_(_)) == [k \in 1..Len(Rows_) |-> [key |-> Rows_[k][1], atoms |-> F_(Rows_[k][2])]]
(* Hubbard U, dispersion parameters: species, then labelled numbers *)
HubRow == /\ In("hubbard")
          /\ \E idx \in BOOLEAN, two \in BOOLEAN :
               LET sp == Label(Len(Rows_) + 1)
               IN Put_("hub", <<sp, IF idx THEN 7 * (Len(Rows_) + 1) ELSE 0, two>>,
                       <<IF idx THEN <<sp, 7 * (Len(Rows_) + 1)>> ELSE sp,
                         (IF two THEN ("p" :> I(NR, "p")) ELSE Empty) @@ ("d" :> F(NR, "d"))>>)
SedRow == /\ In("sedc")
          /\ \E two \in BOOLEAN :
               LET sp == Label(Len(Rows_) + 1)
               IN Put_("sedc", <<sp, two>>, <<sp, (IF two THEN ("R0" :> I(NR, "p")) ELSE Empty) @@ ("C6" :> F(NR, "d"))>>)
SedUnits == IF blk.units = 0 THEN [energy |-> "eV", distance |-> "Ang"]
            ELSE [energy |-> S(blk.units, 1), distance |-> S(blk.units, 2)]

(* Symmetry operations: three rows of a rotation and one of a translation *)
SymOp == /\ In("symmetry")
         /\ doc' = doc \o <<Row("nums", <<<<"int", "int", "int">>>>), Row("nums", <<<<"real", "real", "frac">>>>),
                            Row("nums", <<<<"real", "exp", "int">>>>), Row("nums", <<<<"frac", "real", "frac">>>>)>>
         /\ blk' = [blk EXCEPT !.rows = Append(@, [r |-> Rows(NR, 3, 3), t |-> Vec(NR + 3, 3)])]
         /\ UNCHANGED <<acc, st, n>>

(* Exchange-correlation definition *)
XcParams == <<"nlxc_screening_length", "nlxc_screening_function", "nlxc_ppd_int", "nlxc_divergence_corr">>
XcRow == /\ In("xcdef")
         /\ \/ LET f == "@xc" \o ToString(Len(Rows_) + 1) IN Put_("xc", <<f>>, <<"xc", f, F(NR, 1)>>)
            \/ \E p \in 1..4, on \in BOOLEAN :
                 /\ ~\E i \in 1..Len(Rows_) : Rows_[i][2] = XcParams[p]
                 /\ (on => p >= 3)
                 /\ Put_("xcpar", <<XcParams[p], on>>,
                         <<"params", XcParams[p], CASE p = 1 -> F(NR, 1) [] p = 2 -> S(NR, 1) [] OTHER -> on>>)
XcPart(part) == LET rs == SelectSeq(Rows_, LAMBDA x : x[1] = part) IN Map([k \in 1..Len(rs) |-> <<rs[k][2], rs[k][3]>>])

(* Pseudopotentials by library or file *)
PotRow == /\ In("pots")
          /\ \/ Len(Rows_) = 0 /\ Put_("potlib", <<>>, <<None, S(NR, 1)>>)
             \/ LET sp == Label(Len(Rows_) + 1) IN Put_("pot", <<sp>>, <<sp, S(NR, 1)>>)

-----------------------------------------------------------------------------
(* devel_code: sections of values and data, values, and bare words *)
DevKinds == {"int", "real", "logical", "word", "file"}
DevVal(r, k) == CASE k = "int" -> I(r, 1) [] k \in {"real", "exp"} -> F(r, 1) [] k = "logical" -> B(r, 1) [] OTHER -> S(r, 1)
SecNames == {"@sec1", "@sec2"}
Titles == {Rows_[i].sec : i \in {i \in 1..Len(Rows_) : Rows_[i].sec # "-"}}
DevSecOpen == /\ In("devel") /\ \E s \in SecNames : /\ (s = "@sec2" => "@sec1" \in Titles)
                                                    /\ Add("dsec", <<s>>) /\ blk' = [blk EXCEPT !.rows = Append(@, [sec |-> s, what |-> "open", at |-> NR, name |-> "-"])]
              /\ st' = "section" /\ UNCHANGED <<acc, n>>
Cur == LET i == CHOOSE i \in 1..Len(Rows_) : Rows_[i].what = "open" /\ \A j \in i + 1..Len(Rows_) : Rows_[j].what # "open" IN Rows_[i].sec
DevIn(what, k) == blk' = [blk EXCEPT !.rows = Append(@, [sec |-> Cur, what |-> what, at |-> NR, name |-> "@dk" \o ToString(Len(Rows_)), kind |-> k])]
DevSecRow == /\ st = "section" /\ Len(Rows_) < MaxRows + 2
             /\ \E k \in DevKinds : \/ Add("dval", <<"@dk" \o ToString(Len(Rows_)), k>>) /\ DevIn("val", k)
                                    \/ Add("ddat", <<k>>) /\ DevIn("data", k)
             /\ UNCHANGED <<acc, st, n>>
DevSecEnd == /\ st = "section" /\ Add("dend", <<Cur>>) /\ st' = "block" /\ UNCHANGED <<acc, blk, n>>
DevTop(what, nm, k) == blk' = [blk EXCEPT !.rows = Append(@, [sec |-> "-", what |-> what, at |-> NR, name |-> nm, kind |-> k])]
\* a value or word may carry the name of a section written before or after it, once
Names == {"@dk" \o ToString(Len(Rows_))} \cup {s \in {"@sec1"} : ~\E i \in 1..Len(Rows_) : Rows_[i].what \in {"val", "word"} /\ Rows_[i].name = s}
DevRow == /\ In("devel")
          /\ \E nm \in Names :
               \/ \E k \in DevKinds : Add("dval", <<nm, k>>) /\ DevTop("val", nm, k)
               \/ Add("dword", <<nm>>) /\ DevTop("word", nm, "-")
          /\ UNCHANGED <<acc, st, n>>
DevResult ==
  LET of(P(_)) == SelectSeq(Rows_, P)
      vals(s) == of(LAMBDA x : x.what = "val" /\ x.sec = s)
      data(s) == of(LAMBDA x : x.what = "data" /\ x.sec = s)
      words == of(LAMBDA x : x.what = "word")
      key(nm) == IF nm \in Titles THEN [cat_ |-> <<"_", nm>>] ELSE nm
      section(s) == Map([k \in 1..Len(vals(s)) |-> <<vals(s)[k].name, DevVal(vals(s)[k].at, vals(s)[k].kind)>>]
                        \o (IF data(s) = <<>> THEN <<>>
                            ELSE << <<"data", [k \in 1..Len(data(s)) |-> DevVal(data(s)[k].at, data(s)[k].kind)]>> >>))
  IN Map(SetToSeq({<<s, section(s)>> : s \in Titles})
         \o [k \in 1..Len(vals("-")) |-> <<key(vals("-")[k].name), DevVal(vals("-")[k].at, vals("-")[k].kind)>>]
         \o [k \in 1..Len(words) |-> <<key(words[k].name), None>>])

-----------------------------------------------------------------------------
Blocks ==
  \/ (\E u \in 0..1 : Open("numbers", Nth("@nb"), u)) \/ NumRow \/ BreakRow \/ Close2("numbers", 0, WithUnits(RowsIn(Rows_)), NoBreak)
  \/ (\E u \in 0..1 : Open("species", Nth("@sb"), u)) \/ SpRow \/ Close2("species", 1, WithUnits(ByLabel(Rows_)), WithUnits(Map(Rows_)))
  \/ PosOpen \/ PosRow \/ Close("positions", IF blk.units = 0 THEN 0 ELSE 1, Map(Rows_))
  \/ Open("ionic", "ionic_constraints", 0) \/ IonRow \/ Close("ionic", 0, PerAtom)
  \/ Open("nonlinear", "nonlinear_constraints", 0) \/ NonRow \/ Close2("nonlinear", 0, Nonlinear(ByLabel), Nonlinear(Map))
  \/ (\E u \in 0..1 : Open("hubbard", "hubbard_u", u)) \/ HubRow \/ Close("hubbard", 1, Map(<< <<"units", UnitsOr("eV")>> >> \o Rows_))
  \/ (\E u \in {0, 2} : Open("sedc", "sedc_custom_params", u)) \/ SedRow \/ Close("sedc", 1, Map(<< <<"units", SedUnits>> >> \o Rows_))
  \/ Open("symmetry", "symmetry_ops", 0) \/ SymOp \/ Close("symmetry", 1, Rows_)
  \/ Open("xcdef", "xc_definition", 0) \/ XcRow \/ Close("xcdef", 0, [xc |-> XcPart("xc"), params |-> XcPart("params")])
  \/ Open("pots", "species_pot", 0) \/ PotRow \/ Close("pots", 1, Map(Rows_))
  \/ Open("devel", "devel_code", 0) \/ DevSecOpen \/ DevSecRow \/ DevSecEnd \/ DevRow \/ Close("devel", 0, DevResult)

Done == st = "top" /\ n > 0 /\ st' = "done" /\ UNCHANGED <<doc, acc, blk, n>>
Next == Keyword \/ Blocks \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* one entry of the result per entry written, whatever came before it
OnePerEntry == st = "done" => /\ Len(acc) = n
                              /\ \A i, j \in 1..Len(acc) : i # j => acc[i][1] # acc[j][1]
\* an entry, once read, is never altered by what follows
NeverAltered == [][Len(acc') >= Len(acc) /\ SubSeq(acc', 1, Len(acc)) = acc]_vars

Pairs(k) == Map([i \in 1..Len(acc) |-> <<acc[i][1], acc[i][k]>>])
Shared == \E i, j \in 1..Len(doc) : /\ i < j /\ doc[i][1] = "sprow" /\ doc[j][1] = "sprow" /\ doc[i][2][1] = doc[j][2][1]
                                    /\ ~\E k \in i..j : doc[k][1] = "endblock"
Image == \E i \in 1..Len(doc) : doc[i][1] = "nonlin" /\ doc[i][2][2][1] = doc[i][2][2][2]
Break == \E i \in 1..Len(doc) : doc[i][1] = "break"
Devs == (IF Shared \/ Image THEN {"one-row-per-label"} ELSE {}) \cup (IF Break THEN {"break-row"} ELSE {})
Emit == IF Faults THEN (st \in {"block", "section"} => PrintT(ToJson([doc |-> doc, err |-> TRUE])))
        ELSE (st = "done" /\ Cardinality(Devs) < 2) =>
          PrintT(ToJson([doc |-> doc, exp |-> <<Pairs(2)>>, dev |-> SetToSeq({<<d, <<Pairs(3)>> >> : d \in Devs})]))
=============================================================================
