------------------------------- MODULE Tensors -------------------------------
(* .efield, .elastic and .magres files: a header with lattice and ions, then  *)
(* delimited sections holding tensors per frequency, quantity, ion or pair.   *)
EXTENDS Doc

CONSTANTS Format, MaxIons, MaxRows, MaxSecs, Faults,
          Least       \* tables of oscillators have at least this many rows

VARIABLES doc, acc, cur, st, n, ions, open, err
vars == <<doc, acc, cur, st, n, ions, open, err>>
NR == Len(doc) + 1
AddRows(rows) == doc' = doc \o rows
Add(t, a) == AddRows(<<Row(t, a)>>)
Init == /\ doc = <<>> /\ acc = Empty /\ cur = Empty /\ st = "head" /\ n = 0 /\ open = FALSE /\ err = "-"
        /\ ions \in 1..MaxIons
Keep == UNCHANGED <<ions, err>>
Spec_(k) == IF k = 1 THEN "@sp1" ELSE "@sp2"
\* the ions of .efield and .elastic files; two kinds of one element may be told apart by a label
\* (a label of digits would be read as a number of the strain row as well: same finding as the ion number)
IonSpec(k) == CASE k = 1 -> "@sp1" [] k = 2 -> (IF Format = "elastic" THEN "@sp1:kind" ELSE "@sp1:tag") [] OTHER -> "@sp2"
\* ions are numbered within their species
Num(k) == IF k = 1 THEN 1 ELSE k - 1
\* .magres files know an atom by its label, which need not be its species' name
Label(k) == IF k = 1 /\ "label" \in DOMAIN cur THEN "@sp1:tag" ELSE Spec_(k)
Atom(k) == <<Label(k), Num(k)>>

Voigt == <<"xx", "yy", "zz", "yz", "xz", "xy">>

-----------------------------------------------------------------------------
FileHead ==
  /\ Format \in {"efield", "elastic"} /\ st = "head"
  /\ LET pre == IF Format = "efield"
                THEN <<Row("begin", <<>>), Row("p_n", <<"ions", ions>>), Row("p_n", <<"branches", 3 * ions>>),
                       Row("p_n", <<"frequencies", MaxRows>>), Row("osc_q", <<>>)>>
                ELSE <<Row("begin", <<>>), Row("p_n", <<"ions", ions>>)>>
         r0 == Len(pre) + 1
         tab == r0 + 4      \* the row before the first ion
     IN /\ AddRows(pre \o <<Row("cellhead", <<>>), Row("vec", <<>>), Row("vec", <<>>), Row("vec", <<>>), Row("frac", <<>>)>>
                   \o [k \in 1..ions |-> Row("frac_ion", <<k, IonSpec(k)>>)])
        /\ acc' = ("ions" :> ions)
             @@ (IF Format = "efield" THEN ("branches" :> 3 * ions) @@ ("frequencies" :> MaxRows) @@ ("Oscillator Q" :> <<F(5, 1)>>) ELSE Empty)
             @@ ("unit_cell" :> Rows(r0 + 1, 3, 3))
             @@ ("coords" :> [index |-> [k \in 1..ions |-> k],
                    u |-> [k \in 1..ions |-> F(tab + k, "u")], v |-> [k \in 1..ions |-> F(tab + k, "v")],
                    w |-> [k \in 1..ions |-> F(tab + k, "w")], spec |-> [k \in 1..ions |-> IonSpec(k)],
                    mass |-> [k \in 1..ions |-> F(tab + k, "m")]])
  /\ open' = TRUE /\ st' = "headend" /\ UNCHANGED <<cur, n>> /\ Keep
HeadEnd == st = "headend" /\ Add("end", <<>>) /\ open' = FALSE /\ st' = "secs" /\ n' = 0 /\ UNCHANGED <<acc, cur>> /\ Keep

-----------------------------------------------------------------------------
(* .efield *)
EfOpen(name, t) == /\ Format = "efield" /\ st = "secs" /\ Len(Get(acc, name, <<>>)) < MaxSecs /\ Add(t, <<>>)
                   /\ open' = TRUE /\ st' = name /\ acc' = Push(acc, name, <<>>) /\ UNCHANGED <<cur, n>> /\ Keep
Block(name) == acc[name][Len(acc[name])]      \* the rows of the last block of that kind
EfRow(name, t) == /\ Format = "efield" /\ st = name /\ Len(Block(name)) < MaxRows /\ Add(t, <<Len(Block(name)) + 1>>)
                  /\ acc' = [acc EXCEPT ![name][Len(acc[name])] = Append(@, NR)] /\ UNCHANGED <<cur, st, n, open>> /\ Keep
EfClose(name, t) == /\ Format = "efield" /\ st = name /\ Len(Block(name)) >= Least /\ Add(t, <<>>)
                    /\ open' = FALSE /\ st' = "secs" /\ UNCHANGED <<acc, cur, n>> /\ Keep
Voigts(rows, lo) == [c \in {Voigt[k] : k \in 1..6} |-> LET j == CHOOSE j \in 1..6 : Voigt[j] = c
                                                      IN [k \in 1..Len(rows) |-> F(rows[k], lo + j)]]
FreqTable(rows) == Voigts(rows, 1) @@ [freq |-> [k \in 1..Len(rows) |-> F(rows[k], 1)]]
\* what the reader makes of the rows: the oscillator index is taken for the frequency, and the last row is lost
Drop(rows) == SubSeq(rows, 1, Len(rows) - 1)
OscShift(rows) == Voigts(rows, 0) @@ [freq |-> [k \in 1..Len(rows) |-> F(rows[k], "n")]]
EfSections == {"oscillator_strengths", "permittivity"}
EfResult(dev) ==
  Without(acc, EfSections) @@
  LET Read(s) == IF dev THEN SelectSeq(acc[s], LAMBDA rows : Len(rows) > 1) ELSE acc[s] IN
  [s \in {s \in EfSections : Has(acc, s) /\ Read(s) # <<>>} |->
     [k \in 1..Len(Read(s)) |->
       IF ~dev THEN FreqTable(Read(s)[k])
       ELSE IF s = "permittivity" THEN FreqTable(Drop(Read(s)[k])) ELSE OscShift(Drop(Read(s)[k]))]]
EfNext == \/ EfOpen("oscillator_strengths", "oscbegin") \/ EfRow("oscillator_strengths", "osc") \/ EfClose("oscillator_strengths", "oscend")
          \/ EfOpen("permittivity", "permbegin") \/ EfRow("permittivity", "perm") \/ EfClose("permittivity", "permend")

-----------------------------------------------------------------------------
(* .elastic *)
Matrices == << <<"Elastic Constants", "elastic_constants", "GPa", 6>>, <<"Compliance Matrix", "compliance_matrix", "GPa^-1", 6>>,
               <<"Elastic Constants [Frozen Ion]", "elastic_constants_frozen_ion", "GPa", 6>>,
               <<"Relaxed Ion Contribution", "relaxed_ion_contribution", "GPa", 6>>,
               <<"Piezoelectric", "piezoelectric", "C/m^2", 3>>,
               <<"Relaxed Ion Piezoelectric Contribution", "relaxed_ion_piezoelectric_contribution", "C/m^2", 3>> >>
ElMatrix == /\ Format = "elastic" /\ st = "secs" /\ n < MaxSecs
            /\ \E m \in 1..Len(Matrices), voigt \in BOOLEAN :
                 /\ ~Has(acc, Matrices[m][2])
                 /\ \* sections come in the order printed
                    \A k \in m..Len(Matrices) : ~Has(acc, Matrices[k][2])
                 /\ (voigt => m \in {1, 5})
                 /\ Add("elbegin", <<Matrices[m][1], Matrices[m][3], voigt>>)
                 /\ cur' = [name |-> Matrices[m][1], rows |-> Matrices[m][4], key |-> Matrices[m][2]]
                 /\ acc' = Put(acc, Matrices[m][2], [units |-> Matrices[m][3], val |-> <<>>])
            /\ open' = TRUE /\ st' = "el" /\ n' = n + 1 /\ Keep
ElRow == /\ st = "el" /\ Len(acc[cur.key].val) < cur.rows /\ Add("sixld", <<>>)
         /\ acc' = [acc EXCEPT ![cur.key].val = Append(@, Vec(NR, 6))] /\ UNCHANGED <<cur, st, n, open>> /\ Keep
ElClose == /\ st = "el" /\ Len(acc[cur.key].val) = cur.rows /\ Add("elend", <<cur.name>>)
           /\ open' = FALSE /\ st' = "secs" /\ UNCHANGED <<acc, cur, n>> /\ Keep
Dirs == <<"X", "Y", "Z">>
ElStrain == /\ Format = "elastic" /\ st = "secs" /\ n < MaxSecs /\ ~Has(acc, "strain")
            /\ Add("elbegin", <<"Internal Strain", "eV/A", FALSE>>) /\ acc' = Put(acc, "strain", <<>>)
            /\ open' = TRUE /\ st' = "strain" /\ n' = n + 1 /\ UNCHANGED cur /\ Keep
ElStrainRow == /\ st = "strain" /\ Len(acc.strain) < 3 * ions
               /\ LET k == Len(acc.strain) IN Add("strain", <<(k \div 3) + 1, IonSpec((k \div 3) + 1), Dirs[(k % 3) + 1]>>)
               /\ acc' = Push(acc, "strain", NR) /\ UNCHANGED <<cur, st, n, open>> /\ Keep
ElStrainEnd == /\ st = "strain" /\ Len(acc.strain) = 3 * ions /\ Add("elend", <<"Internal Strain">>)
               /\ open' = FALSE /\ st' = "secs" /\ UNCHANGED <<acc, cur, n>> /\ Keep
Strain(dev) == Map(<< <<"units", "eV/A">> >> \o
                   [k \in 1..ions |-> << <<IonSpec(k), k>>,
                      [d \in 1..3 |-> LET r == acc.strain[3 * (k - 1) + d] IN
                         IF dev THEN <<F(r, "n")>> \o Vec(r, 6) ELSE Vec(r, 6)]>>])
ElResult(dev) == IF Has(acc, "strain") THEN Put(Without(acc, {"strain"}), "internal_strain", Strain(dev)) ELSE acc
ElNext == ElMatrix \/ ElRow \/ ElClose \/ ElStrain \/ ElStrainRow \/ ElStrainEnd

SecsEnd == /\ st = "secs" /\ n >= 0 /\ (Format = "elastic" => n > 0) /\ st' = "done" /\ UNCHANGED <<doc, acc, cur, n, open>> /\ Keep

-----------------------------------------------------------------------------
(* .magres *)
MgOpen == /\ Format = "magres" /\ st = "head" /\ AddRows(<<Row("m_head", <<>>), Row("m_open", <<"calculation">>)>>)
          /\ acc' = [calc |-> Empty] /\ open' = TRUE /\ st' = "calc" /\ UNCHANGED <<cur, n>> /\ Keep
MgCalc == /\ st = "calc"
          /\ \E version \in {"8.0", "21.11", "22.1", "23.1"}, comment \in BOOLEAN :
               LET new == version \in {"22.1", "23.1"} IN
               /\ AddRows(<<Row("m_calc", <<"code_version", version>>), Row("m_calcs", <<"name">>)>>
                          \o (IF comment THEN <<Row("m_nocomment", <<>>)>> ELSE <<>>)
                          \o <<Row("m_calcs", <<"cutoffenergy">>), Row("m_calcs", <<"kpoint_mp_grid">>), Row("m_close", <<"calculation">>)>>)
               /\ LET r == IF comment THEN 6 ELSE 5 IN
                  acc' = [calc |-> [code_version |-> version, name |-> S(NR + 1, 1),
                                    cutoffenergy |-> S(r, 1), kpoint_mp_grid |-> S(r + 1, 1)]]
               /\ cur' = [new |-> new] @@ (IF comment THEN "label" :> TRUE ELSE Empty)
          /\ open' = FALSE /\ st' = "atoms" /\ UNCHANGED n /\ Keep
MgAtoms == /\ st = "atoms"
           /\ AddRows(<<Row("m_open", <<"atoms">>), Row("m_units", <<"lattice", "Angstrom">>), Row("m_lattice", <<>>),
                        Row("m_units", <<"atom", "Angstrom">>), Row("m_symm", <<>>)>>
                      \o [k \in 1..ions |-> Row("m_atom", <<Spec_(k), Label(k), Num(k)>>)])
           /\ acc' = Put(acc, "atoms", [units |-> [lattice |-> "Angstrom", atom |-> "Angstrom"],
                          lattice |-> Vec(NR + 2, 9), coords |-> Map([k \in 1..ions |-> <<Atom(k), Vec(NR + 4 + k, 3)>>])])
           /\ cur' = Put(cur, "pos", NR + 4)
           /\ open' = TRUE /\ st' = "atomsend" /\ UNCHANGED n /\ Keep
MgAtomsEnd == /\ st = "atomsend" /\ Add("m_close", <<"atoms">>) /\ open' = FALSE /\ st' = "magopen" /\ UNCHANGED <<acc, cur, n>> /\ Keep
MgMag == /\ st = "magopen" /\ Add("m_open", <<"magres">>) /\ open' = TRUE /\ st' = "mag" /\ n' = 0
         /\ acc' = Put(acc, "magres", <<>>) /\ UNCHANGED cur /\ Keep
Quantities == {"ms", "efg", "efg_local", "efg_nonlocal", "isc", "isc_fc", "isc_spin", "isc_orbital_p", "isc_orbital_d"}
Alias == [ms |-> "magnetic_resonance_shielding", efg |-> "electric_field_gradient", efg_local |-> "local_electric_field_gradient",
          efg_nonlocal |-> "nonlocal_electric_field_gradient", isc_fc |-> "j_coupling_fc", isc_orbital_p |-> "j_coupling_orbital_p",
          isc_orbital_d |-> "j_coupling_orbital_d", isc_spin |-> "j_coupling_spin", isc |-> "j_coupling_k_total"]
Seen(q) == \E k \in DOMAIN acc.magres : acc.magres[k].q = q
MgUnits == /\ st = "mag" /\ n < MaxSecs
           /\ \E q \in Quantities : ~Seen(q) /\ Add("m_units", <<q, "ppm">>)
                /\ cur' = Put(cur, "q", q) /\ acc' = Push(acc, "magres", [q |-> q, units |-> TRUE, rows |-> <<>>])
           /\ n' = n + 1 /\ st' = "magrow" /\ UNCHANGED open /\ Keep
\* one row per ion (or per pair with one of the ions); wide indices run into the species
MgRows ==
  /\ st = "magrow"
  /\ \E munged \in BOOLEAN, a \in 1..ions :
       LET pair == cur.q \notin {"ms", "efg", "efg_local", "efg_nonlocal"}
           wide == IF cur.new THEN 10000 ELSE 100
           idx(k) == IF munged THEN wide + Num(k) ELSE Num(k)
           key(k) == IF pair THEN <<Atom(a), Atom(k)>> ELSE <<Label(k), idx(k)>>
           row(k) == IF pair THEN Row("m_pair", <<cur.q, Label(a), Num(a), Label(k), Num(k)>>)
                     ELSE Row("m_ten", <<cur.q, Label(k), idx(k), munged>>)
       IN /\ (munged => ~pair) /\ (pair \/ a = 1)
          /\ AddRows([k \in 1..ions |-> row(k)])
          /\ acc' = [acc EXCEPT !.magres[Len(acc.magres)].rows = [k \in 1..ions |-> <<key(k), Vec(NR + k - 1, 9)>>]]
  /\ st' = "mag" /\ UNCHANGED <<cur, n, open>> /\ Keep
MgEnd == /\ st = "mag" /\ n > 0 /\ Add("m_close", <<"magres">>) /\ open' = FALSE /\ st' = "oldopen" /\ UNCHANGED <<acc, cur, n>> /\ Keep

MgOldSkip == /\ st = "oldopen" /\ st' = "done" /\ UNCHANGED <<doc, acc, cur, n, open>> /\ Keep
MgOldOpen == /\ st = "oldopen" /\ Add("m_open", <<"magres_old">>) /\ open' = TRUE /\ st' = "old" /\ n' = 0
             /\ acc' = Put(acc, "old", <<>>) /\ UNCHANGED cur /\ Keep
MgOld == /\ st = "old" /\ n < ions
         /\ LET sp == Label(n + 1) IN LET i == Num(n + 1) IN
            /\ AddRows(<<Row("o_head", <<sp, i>>), Row("o_total", <<>>), Row("three", <<>>), Row("three", <<>>), Row("three", <<>>), Row("blank", <<>>)>>
                    \o FlattenSeq([d \in 1..3 |-> <<Row("o_eval", <<sp, i, Voigt[d]>>), Row("o_evec", <<sp, i, Voigt[d]>>)>>])
                    \o <<Row("blank", <<>>), Row("o_iso", <<sp, i, "Isotropic", TRUE>>), Row("o_iso", <<sp, i, "Anisotropy", TRUE>>),
                         Row("o_iso", <<sp, i, "Asymmetry", FALSE>>), Row("blank", <<>>)>>)
            /\ acc' = Push(acc, "old", NR)
         /\ n' = n + 1 /\ UNCHANGED <<cur, st, open>> /\ Keep
MgOldEnd == /\ st = "old" /\ n = ions /\ Add("m_close", <<"magres_old">>) /\ open' = FALSE /\ st' = "done" /\ UNCHANGED <<acc, cur, n>> /\ Keep

OldAtom(k, vname, ename) == LET r == acc.old[k] IN
  [coords |-> Vec(cur.pos + k, 3), isotropic |-> F(r + 13, 1), anisotropy |-> F(r + 14, 1), asymmetry |-> F(r + 15, 1)]
  @@ (vname :> [d \in 1..3 |-> F(r + 4 + 2 * d, 1)]) @@ (ename :> [d \in 1..3 |-> Vec(r + 5 + 2 * d, 3)])
Shield(k) == Rows(acc.old[k] + 2, 3, 3)
MagBlock ==
  LET q(k) == acc.magres[k] IN
  [m \in {q(k).q : k \in DOMAIN acc.magres} \cup {Alias[q(k).q] : k \in DOMAIN acc.magres} |->
     LET k == CHOOSE k \in DOMAIN acc.magres : m \in {q(k).q, Alias[q(k).q]} IN Map(q(k).rows)]
  @@ ("units" :> [m \in {q(k).q : k \in DOMAIN acc.magres} |-> "ppm"])
MgResult(vname, ename, last) ==
  Put(Without(acc, {"magres", "old"}), "magres", MagBlock) @@
  (IF ~Has(acc, "old") THEN Empty
   ELSE [total_shielding |-> IF ions = 1 \/ last THEN Shield(ions) ELSE [k \in 1..ions |-> Shield(k)],
         atom_info |-> Map([k \in 1..ions |-> <<Atom(k), OldAtom(k, vname, ename)>>])])
MgNext == MgOpen \/ MgCalc \/ MgAtoms \/ MgAtomsEnd \/ MgMag \/ MgUnits \/ MgRows \/ MgEnd \/ MgOldSkip \/ MgOldOpen \/ MgOld \/ MgOldEnd

-----------------------------------------------------------------------------
Cut == /\ Faults /\ open /\ err = "-" /\ err' = "file ends inside a section" /\ st' = "done"
       /\ UNCHANGED <<doc, acc, cur, n, ions, open>>

Next == FileHead \/ HeadEnd \/ EfNext \/ ElNext \/ SecsEnd \/ MgNext \/ Cut
Spec == Init /\ [][Next]_vars

Result == CASE Format = "efield" -> EfResult(FALSE) [] Format = "elastic" -> ElResult(FALSE)
            [] Format = "magres" -> MgResult("eigenvalue", "eigenvector", FALSE)
Deviations ==
  CASE Format = "efield" -> IF \E s \in EfSections : Has(acc, s) THEN << <<"efield-tables", EfResult(TRUE)>> >> ELSE <<>>
    [] Format = "elastic" -> IF Has(acc, "strain") THEN << <<"elastic-strain-index", ElResult(TRUE)>> >> ELSE <<>>
    [] Format = "magres" -> IF Has(acc, "old")
         THEN << <<"magres-old-eigenvalue-name", MgResult("eigvenvalue", "eigvenvector", FALSE)>>,
                 <<"magres-old-shielding", MgResult("eigvenvalue", "eigvenvector", TRUE)>> >> ELSE <<>>

\* every tensor row written belongs to exactly one entry of the result
RowsKept ==
  (st = "done" /\ err = "-") =>
    LET count(t) == Cardinality({k \in 1..Len(doc) : doc[k][1] = t}) IN
    CASE Format = "efield" -> Len(FlattenSeq(Get(acc, "permittivity", <<>>))) = count("perm")
                             /\ Len(FlattenSeq(Get(acc, "oscillator_strengths", <<>>))) = count("osc")
      [] Format = "elastic" -> Len(Get(acc, "strain", <<>>)) = count("strain")
      [] Format = "magres" -> count("m_ten") + count("m_pair") = ions * Len(acc.magres)
Emit == (st = "done" /\ (Faults => err # "-")) =>
          PrintT(ToJson([doc |-> doc] @@ IF err = "-" THEN [exp |-> Result, dev |-> Deviations] ELSE [err |-> err]))
=============================================================================
