------------------------------- MODULE Spectra -------------------------------
(* Reading .bands, .phonon and .phonon_dos files row by row.                  *)
(*                                                                            *)
(* doc, acc as in Doc; dims the declared sizes; st the reader's position;     *)
(* n a row counter; cur the k/q-point being assembled; open: rows of a        *)
(* delimited or counted section have started and not finished.                *)
EXTENDS Doc

CONSTANTS Format, MaxPts, MaxIons, Faults,
          Least       \* at least this many bands, or branches, more than ions; bins of densities

VARIABLES doc, acc, cur, st, n, dims, opts, open, err
vars == <<doc, acc, cur, st, n, dims, opts, open, err>>

NR == Len(doc) + 1
AddRows(rows) == doc' = doc \o rows
Add(t, a) == AddRows(<<Row(t, a)>>)

Dims == [pts : 1..MaxPts, ions : 1..MaxIons, extra : Least..(Least + 2)]

Init == /\ doc = <<>> /\ acc = [points |-> <<>>] /\ cur = Empty /\ n = 0 /\ st = "head"
        /\ dims \in Dims /\ opts = Empty /\ open = FALSE /\ err = "-"

\* the last row of a group closes it
Keep == UNCHANGED <<dims, opts, err>>

-----------------------------------------------------------------------------
(* .bands: header, then per k-point one or two spin components of eigenvalues *)
NB == dims.ions + dims.extra      \* number of eigenvalues per component

BandsHead ==
  /\ Format = "bands" /\ st = "head"
  /\ \E spins \in {1, 2}, split \in BOOLEAN :
       /\ split => spins = 2         \* spin-polarised headers print one value per component
       /\ AddRows(<< Row("b_n", <<"k-points", dims.pts>>), Row("b_n", <<"spin components", spins>>),
                     Row("b_elec", <<split>>), Row("b_eig", <<NB, split>>), Row("b_fermi", <<split>>),
                     Row("b_cell", <<>>), Row("vec", <<>>), Row("vec", <<>>), Row("vec", <<>>) >>)
       /\ opts' = [spins |-> spins, split |-> split]
       /\ acc' = ("k-points" :> dims.pts) @@ ("spin components" :> spins) @@ ("points" :> <<>>)
                 @@ ("electrons" :> IF split THEN <<I(3, 1), I(3, 2)>> ELSE I(3, 1))
                 @@ ("eigenvalues" :> IF split THEN <<NB, NB>> ELSE NB)
                 @@ ((IF split THEN "Fermi energies" ELSE "Fermi energy") :> IF split THEN Vec(5, 2) ELSE Vec(5, 1))
                 @@ ("unit_cell" :> Rows(7, 3, 3)) @@ ("coords" :> Map(<<>>))
  /\ st' = "kpt" /\ UNCHANGED <<cur, n, dims, open, err>>

BandsK ==
  /\ Format = "bands" /\ st = "kpt" /\ Len(acc.points) < dims.pts
  /\ AddRows(<<Row("b_kpt", <<Len(acc.points) + 1>>), Row("b_spin", <<1>>)>>)
  /\ cur' = [qpt |-> Vec(NR, 3), weight |-> F(NR, 4), comps |-> << <<>> >>]
  /\ st' = "eig" /\ n' = 0 /\ open' = TRUE /\ UNCHANGED acc /\ Keep

BandsEig ==
  /\ Format = "bands" /\ st = "eig" /\ n < NB
  /\ Add("b_val", <<>>)
  /\ cur' = [cur EXCEPT !.comps[Len(cur.comps)] = Append(@, F(NR, 1))]
  /\ n' = n + 1 /\ UNCHANGED <<acc, st, open>> /\ Keep

BandsSpin ==
  /\ Format = "bands" /\ st = "eig" /\ n = NB /\ Len(cur.comps) < opts.spins
  /\ Add("b_spin", <<2>>)
  /\ cur' = [cur EXCEPT !.comps = Append(@, <<>>)]
  /\ n' = 0 /\ UNCHANGED <<acc, st, open>> /\ Keep

BandsEnd ==
  /\ Format = "bands" /\ st = "eig" /\ n = NB /\ Len(cur.comps) = opts.spins
  /\ acc' = [acc EXCEPT !.points = Append(@,
                [qpt |-> cur.qpt, weight |-> cur.weight, spin_comp |-> (opts.spins = 2)]
                @@ (IF opts.spins = 2 THEN [band_up |-> cur.comps[1], band_down |-> cur.comps[2]]
                    ELSE [band |-> cur.comps[1]]))]
  /\ st' = IF Len(acc.points) + 1 = dims.pts THEN "done" ELSE "kpt"
  /\ open' = FALSE /\ UNCHANGED <<doc, cur, n>> /\ Keep

-----------------------------------------------------------------------------
(* the header shared by .phonon and .phonon_dos *)
Cell == <<Row("cellhead", <<>>), Row("vec", <<>>), Row("vec", <<>>), Row("vec", <<>>), Row("frac", <<>>)>>
\* two kinds of one element may be told apart by a label
SpeciesOf(k) == CASE k = 1 -> "@sp1" [] k = 2 -> "@sp1:tag" [] OTHER -> "@sp2"
Ion(k) == Row("frac_ion", <<k, SpeciesOf(k)>>)
IonTable(r0) == \* r0: row before the first ion
  [index |-> [k \in 1..dims.ions |-> k],
   u |-> [k \in 1..dims.ions |-> F(r0 + k, "u")], v |-> [k \in 1..dims.ions |-> F(r0 + k, "v")],
   w |-> [k \in 1..dims.ions |-> F(r0 + k, "w")],
   spec |-> [k \in 1..dims.ions |-> SpeciesOf(k)],
   mass |-> [k \in 1..dims.ions |-> F(r0 + k, "m")]]

Branches == dims.ions + dims.extra
DosSpecies == [k \in 1..(IF dims.ions > 3 THEN 3 ELSE dims.ions) |-> SpeciesOf(k)]

PhHeadOpen ==
  /\ Format \in {"phonon", "phonon_dos"} /\ st = "head"
  /\ LET pre == IF Format = "phonon"
                THEN <<Row("begin", <<>>), Row("p_n", <<"ions", dims.ions>>), Row("p_n", <<"branches", Branches>>),
                       Row("p_n", <<"wavevectors", dims.pts>>), Row("p_unit", <<>>)>>
                ELSE <<Row("begin", <<>>), Row("p_n", <<"ions", dims.ions>>), Row("p_n", <<"species", Len(DosSpecies)>>),
                       Row("p_n", <<"branches", Branches>>), Row("p_n", <<"bins in DOS", dims.extra>>)>>
     IN /\ AddRows(pre \o Cell \o [k \in 1..dims.ions |-> Ion(k)])
        /\ acc' = ("ions" :> dims.ions) @@ ("branches" :> Branches) @@ ("points" :> <<>>)
                  @@ (IF Format = "phonon" THEN "wavevectors" :> dims.pts
                      ELSE ("species" :> Len(DosSpecies)) @@ ("bins in DOS" :> dims.extra))
                  @@ ("unit_cell" :> Rows(7, 3, 3)) @@ ("coords" :> IonTable(10))
  /\ open' = TRUE /\ st' = "headend" /\ UNCHANGED <<cur, n>> /\ Keep

PhHeadClose ==
  /\ st = "headend" /\ Add("end", <<>>)
  /\ open' = FALSE /\ st' = (IF Format = "phonon" THEN "qpt" ELSE "grad")
  /\ UNCHANGED <<acc, cur, n>> /\ Keep

-----------------------------------------------------------------------------
(* .phonon: per q-point a frequency table and an eigenvector table *)
PhQ ==
  /\ st = "qpt" /\ Len(acc.points) < dims.pts
  /\ \E dir \in BOOLEAN, ir \in BOOLEAN, raman \in BOOLEAN :
       /\ (ir \/ raman) => Len(acc.points) = 0
       /\ dir => Len(acc.points) <= 1      \* the zone centre again, approached from another side
       /\ Add("q", <<Len(acc.points) + 1, dir>>)
       /\ cur' = [qpt |-> Vec(NR, 3), weight |-> F(NR, 4)] @@ (IF dir THEN [dir |-> VecFrom(NR, 5, 7)] ELSE Empty)
       /\ opts' = [ir |-> ir, raman |-> raman]
  /\ st' = "freq" /\ n' = 0 /\ open' = TRUE /\ UNCHANGED <<acc, dims, err>>

PhFreq ==
  /\ st = "freq" /\ n < Branches
  /\ Add("freq", <<n + 1, opts.ir, opts.raman>>)
  /\ LET a == Push(cur, "eigenvalues", F(NR, "f"))
         b == IF opts.ir THEN Push(a, "ir_intensity", F(NR, "ir")) ELSE a
     IN cur' = IF opts.raman THEN Push(b, "raman_intensity", F(NR, "ra")) ELSE b
  /\ n' = n + 1 /\ UNCHANGED <<acc, st, open>> /\ Keep

PhVecHead ==
  /\ st = "freq" /\ n = Branches
  /\ AddRows(<<Row("evhead", <<>>), Row("evcols", <<>>)>>)
  /\ st' = "evec" /\ n' = 0 /\ UNCHANGED <<acc, cur, open>> /\ Keep

PhVec ==
  /\ st = "evec" /\ n < Branches * dims.ions
  /\ Add("evec", <<(n \div dims.ions) + 1, (n % dims.ions) + 1>>)
  /\ cur' = Push(cur, "eigenvectors", [k \in 1..3 |-> C(NR, k)])
  /\ n' = n + 1 /\ UNCHANGED <<acc, st, open>> /\ Keep

PhEnd ==
  /\ st = "evec" /\ n = Branches * dims.ions
  /\ acc' = [acc EXCEPT !.points = Append(@, cur)]
  /\ st' = IF Len(acc.points) + 1 = dims.pts THEN "done" ELSE "qpt"
  /\ open' = FALSE /\ UNCHANGED <<doc, cur, n>> /\ Keep

-----------------------------------------------------------------------------
(* .phonon_dos: optional gradients, then a table of densities per species *)
GradOpen == /\ st = "grad" /\ Add("gradbegin", <<>>) /\ open' = TRUE /\ st' = "gradq"
            /\ acc' = Put(acc, "gradients", <<>>) /\ UNCHANGED <<cur, n>> /\ Keep
GradNone == /\ st = "grad" /\ st' = "dos" /\ UNCHANGED <<doc, acc, cur, n, open>> /\ Keep
GradQ == /\ st = "gradq" /\ Len(acc.gradients) < dims.pts
         /\ AddRows(<<Row("gq", <<Len(acc.gradients) + 1>>)>> \o [k \in 1..Branches |-> Row("grow", <<k>>)])
         /\ acc' = [acc EXCEPT !.gradients = Append(@,
              [qpt |-> Vec(NR, 3), pth |-> <<F(NR, 4)>>, n |-> [k \in 1..Branches |-> k],
               f |-> [k \in 1..Branches |-> F(NR + k, "f")], Grad_qf |-> [k \in 1..Branches |-> F(NR + k, "g")]])]
         /\ UNCHANGED <<cur, st, n, open>> /\ Keep
GradClose == /\ st = "gradq" /\ Len(acc.gradients) = dims.pts /\ Add("gradend", <<>>)
             /\ open' = FALSE /\ st' = "dos" /\ UNCHANGED <<acc, cur, n>> /\ Keep

DosOpen == /\ st = "dos" /\ Add("dosbegin", <<DosSpecies>>) /\ open' = TRUE /\ st' = "dosrow" /\ n' = 0
           /\ UNCHANGED <<acc, cur>> /\ Keep
DosRow == /\ st = "dosrow" /\ n < dims.extra + 1
          /\ Add("dosrow", <<n, Len(DosSpecies)>>)
          /\ cur' = Push(Push(cur, "freq", F(NR, "x")), "g", F(NR, "g"))
                    @@ Empty
          /\ n' = n + 1 /\ UNCHANGED <<acc, st, open>> /\ Keep
DosClose == /\ st = "dosrow" /\ n = dims.extra + 1 /\ Add("dosend", <<>>)
            /\ open' = FALSE /\ st' = "done" /\ UNCHANGED <<acc, cur, n>> /\ Keep

\* one table: frequency, total density, and one column per species
DosTable(rows) ==
  LET r0 == NR - 2 - dims.extra - 1     \* the row before the first data row
      col(c) == [k \in 1..rows |-> F(r0 + k, c)]
  IN Map(<< <<"freq", col("x")>>, <<"g", col("g")>> >> \o
         [s \in 1..Len(DosSpecies) |-> <<DosSpecies[s], col("s" \o ToString(s))>>])

-----------------------------------------------------------------------------
(* faults: the file stops inside an open section, or a counted row is lost *)
Cut == /\ Faults /\ open /\ st # "done" /\ Format # "bands"
       /\ ~(st = "evec" /\ n = Branches * dims.ions)      \* the last declared row ends the section
       /\ err' = "file ends inside a section" /\ st' = "done"
       /\ UNCHANGED <<doc, acc, cur, n, dims, opts, open>>

Counted == {"freq", "evec"}
Lose == /\ Faults /\ st = "done" /\ err = "-" /\ Format = "phonon"
        /\ \E k \in 1..Len(doc) : /\ doc[k][1] \in Counted
                                  /\ doc' = SubSeq(doc, 1, k - 1) \o SubSeq(doc, k + 1, Len(doc))
        /\ err' = "a declared row is missing"
        /\ UNCHANGED <<acc, cur, st, n, dims, opts, open>>
Repeat == /\ Faults /\ st = "done" /\ err = "-" /\ Format = "phonon"
          /\ \E k \in 1..Len(doc) : /\ doc[k][1] = "freq" \/ (doc[k][1] = "evec" /\ k < Len(doc) /\ doc[k + 1][1] = "evec")
                                    /\ doc' = SubSeq(doc, 1, k) \o SubSeq(doc, k, Len(doc))
          /\ err' = "a row more than declared"
          /\ UNCHANGED <<acc, cur, st, n, dims, opts, open>>

Next == BandsHead \/ BandsK \/ BandsEig \/ BandsSpin \/ BandsEnd
        \/ PhHeadOpen \/ PhHeadClose \/ PhQ \/ PhFreq \/ PhVecHead \/ PhVec \/ PhEnd
        \/ GradOpen \/ GradNone \/ GradQ \/ GradClose \/ DosOpen \/ DosRow \/ DosClose
        \/ Cut \/ Lose \/ Repeat

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Result ==
  CASE Format = "bands" -> Put(Without(acc, {"points"}), "bands", acc.points)
    [] Format = "phonon" -> Put(Without(acc, {"points"}), "qpts", acc.points)
    [] Format = "phonon_dos" -> Put(Without(acc, {"points"}), "dos", <<DosTable(dims.extra + 1)>>)

\* what the reader is known to return instead (see known_findings.json)
Deviations ==
  IF Format = "phonon_dos"
  THEN << <<"phonon_dos-last-row", Put(Without(acc, {"points"}), "dos", <<DosTable(dims.extra)>>)>> >>
  ELSE <<>>

TypeOK == Len(acc.points) <= dims.pts
Complete == (st = "done" /\ err = "-" /\ Format # "phonon_dos") => Len(acc.points) = dims.pts
Emit == (st = "done" /\ (Faults => err # "-")) =>
          PrintT(ToJson([doc |-> doc] @@ IF err = "-" THEN [exp |-> Result, dev |-> Deviations] ELSE [err |-> err]))
=============================================================================
