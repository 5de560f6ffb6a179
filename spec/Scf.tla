---------------------------------- MODULE Scf ----------------------------------
(* The self-consistent cycles printed in a .castep file, with the detail of     *)
(* each cycle at the higher verbosities, as a state machine which keeps what    *)
(* was read so far.  Detail is printed before the row of its own cycle, notes   *)
(* after the row they belong to.                                                *)
EXTENDS CastepSections

CONSTANTS MaxTables, MaxCycles, MaxBlocks, MaxRounds, MaxBands, MaxTerms, MaxNotes,
          Fixed     \* tables of fixed occupancy, without a Fermi energy

VARIABLES rows, tables, cycles, detail, phase, bands, left
vars == <<rows, tables, cycles, detail, phase, bands, left>>

\* the terms of the energy: how each is printed, and where it goes
Terms == <<
  [row |-> R("Exchange-correlation energy      ={f1:28.17f|-99999|0} eV"), key |-> "exchange_correlation_energy"],
  [row |-> R("+Hartree energy                  ={f1:28.17f|-99999|99999} eV"), key |-> "hartree_energy"],
  [row |-> R("+Local pseudopotential energy    ={f1:28.17f|-99999|99999} eV"), key |-> "local_pseudopotential_energy"],
  [row |-> R("Potential energy (total)         ={f1:28.17f|-99999|99999} eV"), key |-> "potential_energy_total"],
  [row |-> R("+Kinetic energy                  ={f1:28.17f|0|99999} eV"), key |-> "kinetic_energy"],
  [row |-> R("+Non-local energy                ={f1:28.17f|-99999|99999} eV"), key |-> "non_local_energy"],
  [row |-> R("+Electronic entropy term (-TS)   ={f1:28.17f|-9|0} eV"), key |-> "electronic_entropy_term_ts"],
  [row |-> R("+Ewald energy (const)            ={f1:28.17f|-99999|99999} eV"), key |-> "ewald_energy_const"],
  [row |-> R("+non-Coulombic energy (const)    ={f1:28.17f|-99999|99999} eV"), key |-> "non_coulombic_energy_const"],
  [row |-> R("Total free energy (E-TS)         ={f1:28.17f|-99999|0} eV"), key |-> "total_free_energy_e_ts"],
  [row |-> R("(XC correction to eigenvalue sum ={f1:28.17f|-99999|99999} eV)"), key |-> "xc_correction"],
  [row |-> R("(Apolar corr to eigenvalue sum   ={f1:28.17f|-99999|99999} eV)"), key |-> "apolar_correction"],
  [row |-> R("(Hubbard U correction to eigenvalu{f1:28.17f|-99999|99999} eV)"), key |-> "hubbard_u_correction"],
  [row |-> R("Fermi energy = {f1:.4E3} eV [lower bound; range ={x:10.2E3|0|1} eV]"), key |-> "fermi_energy"]>>
\* rows printed between which hold nothing
Chatter == {L("Starting SCF cycle     1 of up to    30"), L(" Calculating the R matrix for the precon Sinv operator"), L(" Diagonalising expanded subspace"),
            L(" Copying updated data back"), L("(Entering electronic_find_fermi_free)"), L("(Leaving electronic_find_fermi_free)"),
            L("Calculating KE and non-local eigenvalues to find total energy"), L("End of SCF cycle energies"), L("----------------------------------"), E}

Next1 == Len(rows) + 1
NoDetail == Mark
Init == rows = <<>> /\ tables = <<>> /\ cycles = <<>> /\ detail = NoDetail /\ phase = "between" /\ bands = <<>>
        /\ left = [tables |-> MaxTables, cycles |-> 0, blocks |-> 0, rounds |-> 0, terms |-> 0, notes |-> MaxNotes, fixed |-> FALSE]

Start(f) == /\ phase = "between" /\ left.tables > 0
            /\ rows' = rows \o <<ScfLine>> \o ScfHead(f)
            /\ cycles' = <<>> /\ detail' = NoDetail /\ phase' = "cycles"
            /\ left' = [left EXCEPT !.tables = @ - 1, !.cycles = MaxCycles, !.blocks = MaxBlocks, !.rounds = 0, !.terms = MaxTerms, !.fixed = f]
            /\ UNCHANGED <<tables, bands>>
\* the row of a cycle, which takes the detail printed before it
Row1 == /\ phase = "cycles" /\ left.cycles > 0
       /\ LET k == Len(cycles) c == Cycle(left.fixed, k, Next1) IN
          /\ rows' = Append(rows, CycleRow(left.fixed, k))
          /\ cycles' = Append(cycles, IF detail = NoDetail THEN c ELSE c @@ [debug_info |-> detail])
       /\ detail' = NoDetail
       /\ left' = [left EXCEPT !.cycles = @ - 1, !.blocks = MaxBlocks, !.terms = MaxTerms]
       /\ UNCHANGED <<tables, phase, bands>>
Note(a) == /\ phase = "cycles" /\ left.notes > 0 /\ cycles # <<>> /\ detail = NoDetail /\ ~Has(cycles[Len(cycles)], NoteKey[a])
           /\ rows' = Append(rows, NoteRow(a))
           /\ cycles' = [cycles EXCEPT ![Len(cycles)] = Put(@, NoteKey[a], NoteVal(a, Next1))]
           /\ left' = [left EXCEPT !.notes = @ - 1] /\ UNCHANGED <<tables, detail, phase, bands>>
\* a block of bands: its size, the kinetic eigenvalue of each, and rounds of minimisation, each with the eigenvalues it changed
InDetail == phase = "cycles" /\ cycles # <<>> /\ left.cycles > 0
BlockSize == /\ InDetail /\ detail = NoDetail
             /\ rows' = Append(rows, R(" no. bands in each block={i1:12d|1|9999}"))
             /\ detail' = Put(detail, "no_bands", I(Next1, 1)) /\ UNCHANGED <<tables, cycles, phase, bands, left>>
BandBlock(n) == /\ InDetail /\ left.blocks > 0 /\ ~Has(detail, "contributions")
            /\ rows' = rows \o [k \in 1..n |-> T("Kinetic eigenvalue #{0:4d} = {f1:18.8E2|0|9999}", <<k>>)]
            /\ detail' = Put(Put(detail, "kinetic_eigenvalue", Get(detail, "kinetic_eigenvalue", <<>>) \o [k \in 1..n |-> F(Len(rows) + k, 1)]),
                             "eigenvalue", Get(detail, "eigenvalue", <<>>))
            /\ bands' = [k \in 1..n |-> k] /\ phase' = "minimising"
            /\ left' = [left EXCEPT !.blocks = @ - 1, !.rounds = MaxRounds] /\ UNCHANGED <<tables, cycles>>
Round(n) == /\ phase = "minimising" /\ left.rounds > 0 /\ n <= Len(bands)
            /\ rows' = rows \o [k \in 1..n |-> T("eigenvalue {0:4d} init= {f1:.2f|-999|999}     fin= {f2:.2f|-999|999}     change= {f3:.4f|0|999}", <<k>>)]
                            \o <<L(" Checking convergence criteria")>>
            /\ detail' = Push(detail, "eigenvalue", [k \in 1..n |-> [initial |-> F(Len(rows) + k, 1), final |-> F(Len(rows) + k, 2), change |-> F(Len(rows) + k, 3)]])
            /\ left' = [left EXCEPT !.rounds = @ - 1] /\ UNCHANGED <<tables, cycles, phase, bands>>
Minimised == phase = "minimising" /\ phase' = "cycles" /\ bands' = <<>> /\ UNCHANGED <<rows, tables, cycles, detail, left>>
Term(k) == /\ InDetail /\ left.terms > 0 /\ ~Has(Get(detail, "contributions", Mark), Terms[k].key)
           /\ rows' = Append(rows, Terms[k].row)
           /\ detail' = Put(detail, "contributions", Put(Get(detail, "contributions", Mark), Terms[k].key, F(Next1, 1)))
           /\ left' = [left EXCEPT !.terms = @ - 1] /\ UNCHANGED <<tables, cycles, phase, bands>>
Idle(row) == /\ phase \in {"cycles", "minimising"} /\ rows[Len(rows)] \notin Chatter
             /\ rows' = Append(rows, row) /\ UNCHANGED <<tables, cycles, detail, phase, bands, left>>
Stop == /\ phase = "cycles" /\ cycles # <<>> /\ detail = NoDetail
        /\ rows' = rows \o <<ScfLine, E>> /\ tables' = Append(tables, cycles) /\ cycles' = <<>> /\ phase' = "between"
        /\ UNCHANGED <<detail, bands, left>>
Finish == phase = "between" /\ tables # <<>> /\ phase' = "done" /\ UNCHANGED <<rows, tables, cycles, detail, bands, left>>

Next == \/ \E f \in Fixed : Start(f)
        \/ Row1 \/ BlockSize \/ Minimised \/ Stop \/ Finish
        \/ \E a \in DOMAIN NoteKey : Note(a)
        \/ \E n \in 1..MaxBands : BandBlock(n) \/ Round(n)
        \/ \E k \in DOMAIN Terms : Term(k)
Spec == Init /\ [][Next]_vars

\* long files, at random: cycles are finished, and tables too
Chance(n) == RandomElement(1..100) <= n
NextRandom ==
  \/ \E f \in Fixed : Start(f)
  \/ /\ phase = "cycles"
     /\ \E d \in {IF Len(rows) >= 0 THEN RandomElement(1..12) ELSE 0} :
          IF d <= 3 /\ left.cycles > 0 THEN Row1
          ELSE IF d = 4 /\ cycles # <<>> /\ detail = NoDetail THEN Stop
          ELSE IF d = 5 /\ left.notes > 0 /\ cycles # <<>> /\ detail = NoDetail /\ \E b \in DOMAIN NoteKey : ~Has(cycles[Len(cycles)], NoteKey[b])
               THEN \E a \in {RandomElement({b \in DOMAIN NoteKey : ~Has(cycles[Len(cycles)], NoteKey[b])})} : Note(a)
          ELSE IF d = 6 /\ InDetail /\ detail = NoDetail THEN BlockSize
          ELSE IF d \in {7, 8} /\ InDetail /\ left.blocks > 0 /\ ~Has(detail, "contributions") THEN \E n \in {RandomElement(1..MaxBands)} : BandBlock(n)
          ELSE IF d \in {9, 10} /\ InDetail /\ left.terms > 0
               THEN \E k \in {RandomElement({j \in DOMAIN Terms : ~Has(Get(detail, "contributions", Mark), Terms[j].key)})} : Term(k)
          ELSE IF d \in {11, 12} /\ rows[Len(rows)] \notin Chatter THEN \E row \in {RandomElement(Chatter)} : Idle(row)
          ELSE IF left.cycles > 0 THEN Row1 ELSE Stop
  \/ /\ phase = "minimising"
     /\ \E d \in {IF Len(rows) >= 0 THEN RandomElement(1..4) ELSE 0} :
          IF d <= 2 /\ left.rounds > 0 THEN \E n \in {RandomElement(1..Len(bands))} : Round(n)
          ELSE IF d = 3 /\ rows[Len(rows)] \notin Chatter THEN \E row \in {RandomElement(Chatter)} : Idle(row)
          ELSE Minimised
  \/ (phase = "between" /\ left.tables = 0 /\ Finish)
SpecRandom == Init /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
\* one entry per printed cycle
OnePerCycle == \A k \in DOMAIN tables : Len(tables[k]) > 0
CyclesCounted == phase = "cycles" => Len(cycles) + left.cycles = MaxCycles
\* what was read stays: finished tables for good, finished cycles but for the notes of the latest
TablesStay == [][IsPrefix(tables, tables')]_vars
CyclesStay == [][(cycles' # <<>> /\ Len(cycles) > 1) => SubSeq(cycles, 1, Len(cycles) - 1) = SubSeq(cycles', 1, Len(cycles) - 1)]_vars
\* detail goes to the next cycle, and to no other
DetailNext == [][Len(cycles') = Len(cycles) + 1 => Get(cycles'[Len(cycles')], "debug_info", NoDetail) = detail]_vars

Emit == phase = "done" => PrintT(ToJson([doc |-> rows, exp |-> tables]))
=============================================================================
