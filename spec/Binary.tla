-------------------------------- MODULE Binary -------------------------------
(* .cst_esp and .epme_bin files as sequences of Fortran records.              *)
EXTENDS Doc

CONSTANTS Format, MaxN, Faults

VARIABLES doc, acc, st, n, dims, open, err
vars == <<doc, acc, st, n, dims, open, err>>
NR == Len(doc) + 1
AddRows(rows) == doc' = doc \o rows
Add(t, a) == AddRows(<<Row(t, a)>>)
Init == /\ doc = <<>> /\ acc = Empty /\ st = "head" /\ n = 0 /\ open = FALSE /\ err = "-"
        /\ dims \in [a : 1..MaxN, b : 1..MaxN, c : 1..MaxN, spins : 1..2]
        /\ (Format = "cst_esp" => dims.a > 1)      \* FFT grids have more than one plane
Keep == UNCHANGED <<dims, err>>
FloatsAt(r, k) == [j \in 1..k |-> F(r, j)]
CplxAt(r, k) == [j \in 1..k |-> C(r, j)]
Ints(vals) == Row("ints", vals)

-----------------------------------------------------------------------------
(* electrostatic potential on an a x b x c grid, one record per column; a     *)
(* meta-GGA part of the same shape may follow                                 *)
EspHead == /\ Format = "cst_esp" /\ st = "head"
           /\ AddRows(<<Ints(<<dims.spins>>), Ints(<<dims.a, dims.b, dims.c>>)>>)
           /\ acc' = [n_spins |-> dims.spins, grid |-> <<dims.a, dims.b, dims.c>>, esp |-> [x \in 1..dims.a |-> <<>>]]
           /\ st' = "esp" /\ n' = 0 /\ UNCHANGED open /\ Keep
EspCol == /\ st \in {"esp", "mgga"} /\ n < dims.a * dims.b
          /\ LET x == (n \div dims.b) + 1 IN LET y == (n % dims.b) + 1 IN
             /\ Add("column", <<x, y, dims.c>>)
             /\ acc' = [acc EXCEPT ![st][x] = Append(@, CplxAt(NR, dims.c))]
          /\ n' = n + 1 /\ UNCHANGED <<st, open>> /\ Keep
EspMgga == /\ st = "esp" /\ n = dims.a * dims.b /\ st' = "mgga" /\ n' = 0
           /\ acc' = Put(acc, "mgga", [x \in 1..dims.a |-> <<>>]) /\ UNCHANGED <<doc, open>> /\ Keep
EspEnd == /\ st \in {"esp", "mgga"} /\ n = dims.a * dims.b /\ st' = "done" /\ UNCHANGED <<doc, acc, n, open>> /\ Keep

-----------------------------------------------------------------------------
(* electron-phonon couplings: a ions, b k-point pairs, c + 1 bands            *)
Bands == dims.c + 1
EpHead == /\ Format = "epme_bin" /\ st = "head"
          /\ AddRows(<<Row("str", <<"Electron-Phonon Coupling File">>), Row("int", <<"version">>), Row("str", <<"HEADER">>),
                       Ints(<<dims.spins>>), Row("floats", <<1>>), Row("str", <<"ATOM">>), Ints(<<dims.a>>), Row("floats", <<9>>)>>)
          /\ acc' = [version |-> I(2, 1), n_spins |-> dims.spins, fermi_energy |-> F(5, 1), n_ions |-> dims.a,
                     real_lattice |-> FloatsAt(8, 9), ions |-> <<>>, kpoints |-> <<>>, phonons |-> <<>>]
          /\ open' = TRUE /\ st' = "ions" /\ n' = 0 /\ Keep
EpIon == /\ st = "ions" /\ n < dims.a
         /\ LET sp == IF n = 0 THEN "@sp1" ELSE "@sp2" IN LET i == IF n = 0 THEN 1 ELSE n IN
            /\ AddRows(<<Ints(<<i>>), Row("name", <<sp>>), Row("floats", <<3>>)>>)
            /\ acc' = Push(acc, "ions", << <<sp, i>>, FloatsAt(NR + 2, 3)>>)
         /\ n' = n + 1 /\ UNCHANGED <<st, open>> /\ Keep
EpKHead == /\ st = "ions" /\ n = dims.a
           /\ AddRows(<<Row("str", <<"KPOINT">>), Ints(<<2 * dims.b>>), Ints(<<Bands>>)>>)
           /\ acc' = Put(Put(acc, "n_kpoint_pairs", dims.b), "n_bands", Bands)
           /\ st' = "kpts" /\ n' = 0 /\ UNCHANGED open /\ Keep
EpK == /\ st = "kpts" /\ n < dims.spins * 2 * dims.b
       /\ LET s == (n \div (2 * dims.b)) + 1 IN LET k == (n % (2 * dims.b)) + 1 IN
          /\ AddRows(<<Ints(<<s>>), Ints(<<k>>), Ints(<<Bands>>), Row("int", <<"min_band">>), Row("floats", <<Bands>>), Row("floats", <<3 * Bands>>)>>)
          /\ acc' = Push(acc, "kpoints", << <<s, k>>,
               [n_bands |-> Bands, min_band |-> I(NR + 3, 1), eigenvalues |-> FloatsAt(NR + 4, Bands), velocities |-> FloatsAt(NR + 5, 3 * Bands)]>>)
       /\ n' = n + 1 /\ UNCHANGED <<st, open>> /\ Keep
EpPHead == /\ st = "kpts" /\ n = dims.spins * 2 * dims.b
           /\ \E bad \in IF Faults THEN {0, 1, 2} ELSE {0} :
                /\ AddRows(<<Row("str", <<"EPCOUPLING">>), Ints(<<dims.b + (IF bad = 1 THEN 1 ELSE 0)>>),
                             Ints(<<IF bad = 2 THEN (Bands + 1) * (Bands + 1) ELSE Bands * Bands>>)>>)
                /\ err' = IF bad = 0 THEN err ELSE "coupling counts disagree with the k-point section"
           /\ st' = "phon" /\ n' = 0 /\ UNCHANGED <<acc, open, dims>>
Modes == 3 * dims.a
EpP == /\ st = "phon" /\ n < dims.b
       /\ AddRows(<<Ints(<<n + 1>>), Ints(<<Bands>>), Ints(<<Bands>>), Ints(<<2 * n + 1, 2 * n + 2>>),
                    Row("floats", <<Modes>>), Row("cplx", <<Modes * 2>>), Row("cplx", <<Bands * Bands>>)>>)
       /\ acc' = Push(acc, "phonons", [kpts |-> <<2 * n + 1, 2 * n + 2>>, frequencies |-> FloatsAt(NR + 4, Modes),
                                       modes |-> CplxAt(NR + 5, Modes * 2), matrix_elements |-> CplxAt(NR + 6, Bands * Bands)])
       /\ n' = n + 1 /\ UNCHANGED <<st, open>> /\ Keep
EpEnd == /\ st = "phon" /\ n = dims.b /\ st' = "done" /\ open' = FALSE /\ UNCHANGED <<doc, acc, n>> /\ Keep

-----------------------------------------------------------------------------
\* the file stops: between two records, or inside one
Cut == /\ Faults /\ open /\ st # "done" /\ err = "-"
       /\ \E drop \in 0..2, part \in BOOLEAN :
            /\ drop < Len(doc)
            /\ (st = "phon" /\ n = dims.b => drop > 0)     \* all declared records are there
            /\ doc' = SubSeq(doc, 1, Len(doc) - drop)
                      \o (IF part THEN <<Row("partial", IF drop = 0 THEN <<>> ELSE <<doc[Len(doc) - drop + 1]>>)>> ELSE <<>>)
       /\ err' = "the file ends before the declared records" /\ st' = "done"
       /\ UNCHANGED <<acc, n, dims, open>>

\* some columns of the grid are missing at the end, or the last one is incomplete
EspCut == /\ Faults /\ st \in {"esp", "mgga"} /\ err = "-"
          /\ \E part \in BOOLEAN :
               /\ (n % (dims.a * dims.b) = 0 => part \/ (n = 0 /\ st = "esp"))
               /\ doc' = doc \o (IF part THEN <<Row("partial", IF doc[Len(doc)][1] = "column" THEN <<doc[Len(doc)]>> ELSE <<>>)>> ELSE <<>>)
          /\ err' = "the file ends before the grid is filled" /\ st' = "done"
          /\ UNCHANGED <<acc, n, dims, open>>

Next == EspCut \/ EspHead \/ EspCol \/ EspMgga \/ EspEnd \/ EpHead \/ EpIon \/ EpKHead \/ EpK \/ EpPHead \/ EpP \/ EpEnd \/ Cut
Spec == Init /\ [][Next]_vars

Result == IF Format = "cst_esp" THEN acc
          ELSE Put(Put(acc, "ions", Map(acc.ions)), "kpoints", Map(acc.kpoints))
\* as many values of each kind as the declared counts promise
Shape == (st = "done" /\ err = "-") =>
   IF Format = "cst_esp" THEN Len(doc) = 2 + dims.a * dims.b * (IF Has(acc, "mgga") THEN 2 ELSE 1)
   ELSE Len(doc) = 14 + 3 * dims.a + 6 * 2 * dims.b * dims.spins + 7 * dims.b
Emit == (st = "done" /\ (Faults => err # "-")) =>
          PrintT(ToJson([doc |-> doc] @@ IF err = "-" THEN [exp |-> Result] ELSE [err |-> err]))
=============================================================================
