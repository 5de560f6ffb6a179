---------------------------- MODULE CastepSections ----------------------------
(* The sections of a .castep file: for every kind of section, what CASTEP     *)
(* prints (rows of literal text and columns) and what the section contributes *)
(* to the result of its run.                                                  *)
(*                                                                            *)
(* A section is [rows, con]; a contribution in con is                         *)
(*   n: the sets of categories which ask for it (one of them suffices),       *)
(*   x: categories which must not be selected,                                *)
(*   o: what it does ("set", "add" to a list, "upd"ate a mapping, "def"ault   *)
(*      empty mapping), p: where, v: the value,                               *)
(*   d, dv: the key of a recorded finding, and the value it yields instead    *)
(*   (od: the operation it amounts to)                                        *)
EXTENDS Doc

L(s) == Row("=", <<s>>)                     \* a line of literal text
T(f, a) == Row("~", <<f>> \o a)             \* a line with columns and arguments
R(f) == T(f, <<>>)
E == L("")
Sec(rows, con) == [rows |-> rows, con |-> con]
Con(n, o, p, v) == [n |-> n, x |-> {}, o |-> o, p |-> p, v |-> v, d |-> "", dv |-> v, od |-> o]
Set(n, p, v) == Con(n, "set", p, v)
Add(n, p, v) == Con(n, "add", p, v)
Upd(n, p, v) == Con(n, "upd", p, v)
Def(n, p) == Con(n, "def", p, 0)
Pinned(c, d, dv) == [c EXCEPT !.d = d, !.dv = dv]
Omitted(c, d) == [c EXCEPT !.d = d, !.od = "none"]
Unless(c, x) == [c EXCEPT !.x = x]
Mark == [mapping_ |-> TRUE]                  \* an empty mapping

On(c) == {{c}}
Always == {{}}
Copies(n, row) == [k \in 1..n |-> row]
Upto(n, s) == SubSeq(s, 1, n)

\* n atoms of two species, with tags or labels, and indices of one to five digits
Suffix(form, k) == CASE form = "plain" -> ""
                     [] form = "tag" -> IF k % 2 = 0 THEN ":tag" ELSE ""
                     [] form = "label" -> IF k % 2 = 1 THEN " [lab]" ELSE ""
                     [] form = "mixed" -> <<"", ":t_2", " [a-b]", ":tag">>[(k % 4) + 1]
Atom(form, n, k) == << (IF k % 3 = 2 THEN "@sp2" ELSE "@sp1") \o Suffix(form, k),
                       IF k = n /\ n > 1 THEN (IF n % 2 = 0 THEN 10003 ELSE 1003) ELSE IF k > 2 THEN 8 + k ELSE k >>
Atoms(form, n) == [k \in 1..n |-> Atom(form, n, k)]
Forms == {"plain", "tag", "label", "mixed"}
\* one row per atom, and the mapping it stands for
AtomRows(f, al) == [k \in 1..Len(al) |-> T(f, al[k])]
AtomMap(al, r, Val(_)) == Map([k \in 1..Len(al) |-> <<al[k], Val(r + k - 1)>>])
V3(r) == Vec(r, 3)
V6(r) == Vec(r, 6)
Kind(k) == <<"@sp1", "@sp2:tag", "@sp3", "@sp4">>[k]
Element(k) == <<"@sp1", "@sp2", "@sp3", "@sp4">>[k]
Mat(r, n, m) == [k \in 1..n |-> Vec(r + k - 1, m)]

-----------------------------------------------------------------------------
(* Information about the calculation *)
Sys == On("SYS_INFO")
Build(n, r) ==
  Sec(<<R("        Compiled for  GNU {s1} on 14-04-2023 15:14:41"),
        R("        from code version  {s1} update-jenkins Fri Apr 14 15:13:22 2023 +0100")>>
      \o Upto(n, <<R("        Compiler: GNU Fortran 12.2.1; Optimisation: {s1}"), R("        Comms   : {s1}  MPI"),
                   R("        MATHLIBS: blas (LAPACK version {s1})"), R("        Fundamental constants values: CODATA {s1}")>>) \o <<E>>,
      <<Set(Sys, <<"build_info">>,
            Map(Upto(n + 1,
              << <<"summary", Cat(<<"Compiled for GNU ", S(r, 1), " on 14-04-2023 15:14:41 from code version ", S(r + 1, 1),
                                    " update-jenkins Fri Apr 14 15:13:22 2023 +0100">>)>>,
                 <<"compiler", Cat(<<"GNU Fortran 12.2.1; Optimisation: ", IF n > 0 THEN S(r + 2, 1) ELSE "">>)>>,
                 <<"comms", Cat(<<IF n > 1 THEN S(r + 3, 1) ELSE "", " MPI">>)>>,
                 <<"mathlibs", Cat(<<"blas (LAPACK version ", IF n > 2 THEN S(r + 4, 1) ELSE "", ")">>)>>,
                 <<"fundamental_constants_values", Cat(<<"CODATA ", IF n > 3 THEN S(r + 5, 1) ELSE "">>)>> >>)))>>)
Started(r) == Sec(<<R(" Run started: Fri, 14 {s1} 2023 15:10:09   +0100")>>,
                  <<Set(Sys, <<"time_started">>, Cat(<<"Fri, 14 ", S(r, 1), " 2023 15:10:09 +0100">>))>>)
Times(n) == Upto(n, <<R("Initialisation time =   {f1:7.2f|0|9999} s"), R("Calculation time    =   {f1:7.2f|0|9999} s"),
                      R("Finalisation time   =   {f1:7.2f|0|9999} s"), R("Total time          =   {f1:7.2f|0|9999} s"),
                      R("Peak Memory Use     = {i1:d|1|9999999} kB")>>)
TimeKeys == <<"initialisation_time", "calculation_time", "finalisation_time", "total_time", "peak_memory_use">>
\* times end at a blank line, or directly at a file printed for testing
Final(p, r) == LET n == p[1] IN
  IF p[2] = "blank" THEN Sec(Times(n) \o <<E>>, [k \in 1..n |-> Set(Sys, <<TimeKeys[k]>>, F(r + k - 1, 1))])
  ELSE Sec(Times(n) \o <<L("<BEGIN elf_fmt>")>>, [k \in 1..n |-> Set(Sys, <<TimeKeys[k]>>, F(r + k - 1, 1))])
Parallel(r) == Sec(<<R("Overall parallel efficiency rating: Satisfactory ({i1:d|1|100}%)")>>,
                   <<Set(Sys, <<"parallel_efficiency">>, F(r, 1))>>)
Continuation(r) == Sec(<<R("Reading continuation data from model file {s1}.check")>>,
                       <<Set(Sys, <<"continuation">>, Cat(<<S(r, 1), ".check">>))>>)
Spaced(parts) == Cat([k \in 1..2 * Len(parts) - 1 |-> IF k % 2 = 1 THEN parts[(k + 1) \div 2] ELSE " "])
WarnBox(n, r) == LET q == "???????????????????????????????????????????????????????????????????????" IN
  Sec(<<L(q), R("                     Warning in {s1}")>> \o Copies(n, R("    Failed to identify {s1} of it")) \o <<L(q)>>,
      <<Add(Sys, <<"warning">>, Spaced(<<Cat(<<"Warning in ", S(r + 1, 1)>>)>>
                                       \o [k \in 1..n |-> Cat(<<"Failed to identify ", S(r + 1 + k, 1), " of it">>)]))>>)
\* a warning of one line and n continuation lines, indented further than itself
Warn(p, r) == LET n == p[2] IN
  Sec(<<CASE p[1] = "upper" -> R(" WARNING - requested {s1} too low") [] p[1] = "lower" -> R(" Warning in {s1}: current value of")
          [] p[1] = "prefix" -> R("TS: Warning - a minimum {s1} was found")>>
      \o Copies(n, R("   ELEC_ENERGY_TOL = {s1}eV")) \o (IF p[3] THEN <<E>> ELSE <<>>),
      <<Add(Sys, <<"warning">>, Spaced(<<CASE p[1] = "upper" -> Cat(<<"WARNING - requested ", S(r, 1), " too low">>)
                                           [] p[1] = "lower" -> Cat(<<"Warning in ", S(r, 1), ": current value of">>)
                                           [] p[1] = "prefix" -> Cat(<<"TS: Warning - a minimum ", S(r, 1), " was found">>)>>
                                       \o [k \in 1..n |-> Cat(<<"ELEC_ENERGY_TOL = ", S(r + k, 1), "eV">>)]))>>)
MemoryNames == <<"Model and support data", "Electronic energy minimisation requirements", "Force calculation requirements",
                 "Molecular Dynamics requirements", "BLAS internal memory storage">>
MemoryKeys == <<"model_and_support_data", "electronic_energy_minimisation_requirements", "force_calculation_requirements",
                "molecular_dynamics_requirements", "blas_internal_memory_storage">>
MemRow == "        | {0:<46}{f1:12.1f|0|99999} MB {f2:11.1f|0|99999} MB |"
Memory(p, r) == LET n == p[1]
                    at(k) == [memory |-> F(r + k, 1), disk |-> F(r + k, 2)]
                    base == r + 2
                    named(d) == [k \in 1..n |-> <<MemoryKeys[k], at(d + k)>>]
                    more == IF p[2] THEN 3 ELSE 2 IN
  Sec(<<L("        +---------------- MEMORY AND SCRATCH DISK ESTIMATES PER PROCESS --------------+"),
        L("        |                                                     Memory          Disk    |")>>
      \o (IF p[2] THEN <<T(MemRow, <<"Baseline code, static data and system overhead">>)>> ELSE <<>>)
      \o [k \in 1..n |-> T(MemRow, <<MemoryNames[k]>>)]
      \o <<L("        |                                               ----------------------------- |"),
           T(MemRow, <<"Approx. total storage required per process">>),
           L("        |                                                                             |"),
           L("        | Requirements will fluctuate during execution and may exceed these estimates |"),
           L("        +-----------------------------------------------------------------------------+")>>,
      <<Pinned(Add(Sys, <<"memory_estimate">>,
               Map((IF p[2] THEN << <<"baseline_code_static_data_and_system_overhead", at(2)>> >> ELSE <<>>)
                   \o named(more - 1) \o << <<"approx_total_storage_required_per_process", at(more + n + 1)>> >>)),
               "memory-rows", IF n = 0 THEN Mark ELSE Map(named(more - 1)))>>)

-----------------------------------------------------------------------------
(* Parameters *)
Parm == On("PARAMETERS")
Title(r) == Sec(<<L(" ************************************ Title ************************************"),
                  R(" CASTEP calculation for {s1}   "), E>>,
                <<Set(Parm, <<"title">>, Cat(<<"CASTEP calculation for ", S(r + 1, 1)>>))>>)
\* groups of options: text, integers, floats with and without units, output units, flags
OptRow(k) == CASE k = 1 -> R(" output verbosity                               : {s1}  (1)")
               [] k = 2 -> R(" max. length of mixing history                  : {i1:10d|0|99999}")
               [] k = 3 -> R(" deltaSCF smearing width                        : {f1:10.4f}   eV")
               [] k = 4 -> R(" total energy / atom convergence tol.           : {f1:.4E}   eV")
               [] k = 5 -> R(" write checkpoint data to                       : {s1}.check")
               [] k = 6 -> R(" spin-component: first                          : {s1}")
               [] k = 7 -> R(" smearing scheme                                : {s1} 2")
               [] k = 8 -> R(" charge of system                               : {f1:10.3f|-99|99}")
OptEntry(k, r) == CASE k = 1 -> <<"output verbosity", Cat(<<S(r, 1), " (1)">>)>>
                    [] k = 2 -> <<"max. length of mixing history", I(r, 1)>>
                    [] k = 3 -> <<"deltaSCF smearing width", <<F(r, 1), "eV">> >>
                    [] k = 4 -> <<"total energy / atom convergence tol.", <<F(r, 1), "eV">> >>
                    [] k = 5 -> <<"write checkpoint data to", Cat(<<S(r, 1), ".check">>)>>
                    [] k = 6 -> <<"spin-component first", S(r, 1)>>
                    [] k = 7 -> <<"smearing scheme", Cat(<<S(r, 1), " 2">>)>>
                    [] k = 8 -> <<"charge of system", F(r, 1)>>
GroupTitle == <<" ***************************** General Parameters ******************************",
                " ************************** Density Mixing Parameters **************************",
                " ************************* Constrained DFT - deltaSCF **************************",
                " ************************** Population Analysis Parameters *********************">>
GroupKey == <<"general", "density mixing", "constrained dft - deltascf", "population analysis">>
\* p: number of groups, entries in each, output units, developer code
Options(p, r) ==
  LET ng == p[1] ne == p[2] nu == p[3]
      size == ne + 3                               \* title, blank, entries, blank
      gr(g) == r + nu + 2 + (g - 1) * size         \* first row of a group after the first one's units
      first == r + 2
      ent(g, k) == (((g - 1) * 3 + k - 1) % 8) + 1
      rowOf(g, k) == IF g = 1 THEN r + 2 + nu + k - 1 ELSE r + nu + (g - 1) * size + 2 + k - 1
      units == Upto(nu, <<R(" output         length unit                     : {s1}"), R(" output  volume unit                            : {s1}**3")>>)
      rows(g) == <<L(GroupTitle[g]), E>> \o (IF g = 1 THEN units ELSE <<>>) \o [k \in 1..ne |-> OptRow(ent(g, k))] \o <<E>>
      body == FlattenSeq([g \in 1..ng |-> rows(g)])
      devr == r + Len(body) + 2
      dev == <<L(" ******************************* Developer Code ********************************"), E,
               R(" {s1}={i2:d|1|999}"), E>>
      stars == L(" *******************************************************************************")
  IN Sec(body \o (IF p[4] THEN dev ELSE <<>>) \o <<stars>>,
         <<Set(Parm, <<"options">>,
               Map([g \in 1..ng |-> <<GroupKey[g], Map([k \in 1..ne |-> OptEntry(ent(g, k), rowOf(g, k))])>>]
                   \o (IF nu > 0 THEN << <<"output_units",
                        Map(Upto(nu, << <<"length", S(r + 2, 1)>>, <<"volume", Cat(<<IF nu > 1 THEN S(r + 3, 1) ELSE "", "**3">>)>> >>))>> >> ELSE <<>>)
                   \o (IF p[4] THEN << <<"devel_code", Map(<< <<S(devr, 1), I(devr, 2)>> >>)>> >> ELSE <<>>)))>>)

\* pair potentials, one block: pairs on one row (up to 4), rows; three-body rows; globals.
\* p[6]: what else there is: "again" more pairs of the same potential, "other" pairs of another one,
\*       "units" of the three-body terms, "triplet" a second one in the same table, "triplets" in one of its own
PairNames == << <<"@sp1", "@sp1">>, <<"@sp1", "@sp2:tag">>, <<"@sp2:tag", "@sp1">>, <<"@sp2:tag", "@sp2:tag">> >>
ParName == <<"r", "e", "s", "CUT1">>
UnitName == <<"e_sw", "s_sw">>
Unit == <<"A", "eV", "", "eV/A^2">>                 \* some have none
PairParams(p, r) ==
  LET tag == p[1] np == p[2] nr == p[3] ns == p[4] ng == p[5]
      more == np > 0 /\ p[6] \in {"again", "other"}
      units == p[6] = "units"
      pre == IF tag = "" THEN "  " ELSE tag
      rule == <<T("{0:2} ********************************************************************", <<pre>>)>>
      two == IF np = 0 THEN <<>> ELSE
             <<T("{0:2} *                               Two Body                           *", <<pre>>),
               CASE np = 5 -> T("{0:2} *                               {1}                                  *", <<pre, "@sp1">>)
                 [] np = 1 -> T("{0:2} *         {1}-{2}                                                *", <<pre>> \o PairNames[1])
                 [] np = 2 -> T("{0:2} *         {1} - {2}       {3} -{4}                        *", <<pre>> \o PairNames[1] \o PairNames[2])
                 [] np = 3 -> T("{0:2} *         {1} - {2}       {3} -{4}       {5} - {6}        *", <<pre>> \o PairNames[1] \o PairNames[2] \o PairNames[3])
                 [] np = 4 -> T("{0:2} *    {1} - {2}       {3} -{4}       {5} - {6}    {7}-{8}  *",
                                <<pre>> \o PairNames[1] \o PairNames[2] \o PairNames[3] \o PairNames[4])>>
             \o [k \in 1..nr |-> T("{0:2} *    {1}  "
                                   \o <<"{f1:12.5f}", "{f1:12.5f}{f2:12.5f}", "{f1:12.5f}{f2:12.5f}{f3:12.5f}",
                                        "{f1:12.5f}{f2:12.5f}{f3:12.5f}{f4:12.5f}", "{f1:14.10f}">>[np] \o "   {2}        * <--   LJ",
                                   <<pre, ParName[k], Unit[k]>>)]
             \o (IF ~more THEN <<>> ELSE
                 <<T("{0:2} *         {1} - {2}       {3} -{4}                        *", <<pre, "@sp3", "@sp1", "@sp3", "@sp3">>)>>
                 \o [k \in 1..nr |-> T("{0:2} *    {1}  {f1:12.5f}{f2:12.5f}   {2}        * <--   {3}", <<pre, ParName[k], Unit[k], IF p[6] = "again" THEN "LJ" ELSE "BUCK">>)])
             \o rule
      r1 == r + 4                           \* the first row of the two-body part
      rm == r1 + nr + 1                     \* and of its second half
      third == ns > 0 /\ p[6] \in {"triplet", "triplets"}
      sws == [k \in 1..ns |-> T("{2:2} *    {0}            {f1:14.10f}              {1}             * <--   SW", <<ParName[k], Unit[k], pre>>)]
      three == IF ns = 0 THEN <<>> ELSE
               <<T("{0:2} *                             Three Body                           *", <<pre>>),
                 T("{3:2} *                            {0} {1} {2}                             *", <<"@sp1", "@sp2:tag", "@sp1", pre>>)>>
               \o sws
               \o (IF ~third THEN <<>> ELSE
                   (IF p[6] = "triplet" THEN <<>> ELSE
                    rule \o <<T("{0:2} *                             Three Body                           *", <<pre>>)>>)
                   \o <<T("{3:2} *                            {0} {1} {2}                             *", <<"@sp2:tag", "@sp1", "@sp1", pre>>)>>
                   \o sws)
               \o rule
      rt == r + 2 + Len(two) + 2 + ns + (IF p[6] = "triplet" THEN 1 ELSE 3)
      r2 == r + 2 + Len(two) + 2
      unit == IF ~units THEN <<>> ELSE
              <<T("{0:2} *                               SW Units                           *", <<pre>>)>>
              \o [k \in 1..2 |-> T("{0:2} * {1}                  {f1:14.10f}                {2}  * <--   SW", <<pre, UnitName[k], Unit[k]>>)]
              \o rule
      ru == r + 2 + Len(two) + Len(three) + 1
      glob == [k \in 1..ng |-> T("{0:2} * {1:>4}                  {f1:14.10f}                {2}  * <--   DZ", <<pre, ParName[5 - k], Unit[5 - k]>>)]
      r3 == r + 2 + Len(two) + Len(three) + Len(unit)
      kind(k) == IF tag = "" THEN k ELSE tag \o "_" \o k
      second(k) == << << <<"@sp3", "@sp1">>, F(rm + k - 1, 1)>>, << <<"@sp3", "@sp3">>, F(rm + k - 1, 2)>> >>
      lj == [k \in 1..nr |-> <<ParName[k], Map((IF np = 5 THEN << << <<"@sp1">>, F(r1 + k - 1, 1)>> >> ELSE [q \in 1..np |-> <<PairNames[q], F(r1 + k - 1, q)>>])
                                               \o (IF p[6] = "again" THEN second(k) ELSE <<>>))>>]
      buck == [k \in 1..nr |-> <<ParName[k], Map(second(k))>>]
      sw == [k \in 1..ns |-> <<ParName[k], Map(<< << <<"@sp1", "@sp2:tag", "@sp1">>, F(r2 + k - 1, 1)>> >>
                                           \o (IF third THEN << << <<"@sp2:tag", "@sp1", "@sp1">>, F(rt + k - 1, 1)>> >> ELSE <<>>))>>]
            \o (IF units THEN [k \in 1..2 |-> <<UnitName[k], F(ru + k - 1, 1)>>] ELSE <<>>)
  IN Sec(<<T("{0:2} ************************     PairParams     ************************", <<pre>>),
           T("{0:2} *                                                                  *", <<pre>>)>> \o two \o three \o unit \o glob
         \o rule \o <<E>>,
         <<Add(Parm, <<"pair_params">>,
            IF np + ns + ng = 0 /\ ~units THEN Mark ELSE
            Map((IF np > 0 THEN << <<kind("LJ"), Map(lj)>> >> ELSE <<>>)
                \o (IF more /\ p[6] = "other" THEN << <<kind("BUCK"), Map(buck)>> >> ELSE <<>>)
                \o (IF sw # <<>> THEN << <<kind("SW"), Map(sw)>> >> ELSE <<>>)
                \o (IF ng > 0 THEN << <<kind("DZ"), Map([k \in 1..ng |-> <<ParName[5 - k], F(r3 + k - 1, 1)>>])>> >> ELSE <<>>)))>>)

Dftd(p, r) ==
  LET n == p[2] x == "        xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
      head == <<L("                                --------------------"), L("                                  DFT-D parameters"),
                L("                                --------------------"), E,
                T("                          Dispersion-correction scheme : {0}", <<p[1]>>),
                R("                        Parameter s6 : {f1:10.6f} (default)"), R("                        Parameter d  : {f1:10.6f|-99|99} (default)"), E>>
  IN Sec(head \o (IF n = 0 THEN <<E>>
                  ELSE <<L(x), L("        x              Atomic DFT-D parameters                             x"),
                         L("        x  Species      C6            R0                                   x"),
                         L("        x               eV A^6        Ang                                  x"),
                         L("        x------------------------------------------------------------------x")>>
                       \o [k \in 1..n |-> T("        x  {0:<7}{f1:14.4f|-999|999}{f2:13.4f}   (default)                   x", <<Kind(k)>>)]
                       \o <<L(x), E>>),
         <<Set(Parm, <<"dftd">>, [dispersion_correction_scheme |-> p[1], parameter_s6 |-> F(r + 5, 1), parameter_d |-> F(r + 6, 1),
                                  species |-> IF n = 0 THEN Mark
                                              ELSE Map([k \in 1..n |-> <<Kind(k), [c6 |-> F(r + 12 + k, 1), r0 |-> F(r + 12 + k, 2)]>>])])>>)
Spins(p, r) == LET al == Atoms(p[1], p[2]) x == "         xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" IN
  Sec(<<L(x), L("         |  Element    Atom         Initial            Initial magnetic       |"),
        L("         |            Number    spin polarization        moment (uB)     Fix? |"),
        L("         |--------------------------------------------------------------------|")>>
      \o [k \in 1..Len(al) |-> T("         | {0:<12}{1:>4d}      {f1:11.6f}         {f2:11.3f}       {2}       |", al[k] \o <<IF k % 2 = 1 THEN "F" ELSE "T">>)]
      \o <<L(x)>>,
      <<Set(Parm, <<"initial_spins">>, Map([k \in 1..Len(al) |-> <<al[k], [spin |-> F(r + 3 + k, 1), magmom |-> F(r + 3 + k, 2), fix |-> k % 2 = 0]>>]))>>)
TargetStress(r) ==
  Sec(<<L("                         External pressure/stress (GPa)"), R("                        {f1:10.5f|-99|99}{f2:10.5f}{f3:10.5f}"),
        R("                                  {f1:10.5f}{f2:10.5f}"), R("                                            {f1:10.5f}")>>,
      <<Add(Parm, <<"target_stress">>, <<F(r + 1, 1), F(r + 1, 2), F(r + 1, 3), F(r + 2, 1), F(r + 2, 2), F(r + 3, 1)>>)>>)
KPoints(form, r) == LET m == form = "grid" IN
  Sec(<<L("                           -------------------------------"), L("                              k-Points For BZ Sampling"),
        L("                           -------------------------------")>>
      \o (IF m THEN <<R("                       MP grid size for SCF calculation is {i1:2d|1|40} {i2:2d|1|40} {i3:2d|1|40}"),
                      R("                            with an offset of  {f1:6.3f} {f2:6.3f} {f3:6.3f}")>> ELSE <<>>)
      \o <<R("                       Number of kpoints used = {i1:13d|1|9999}"), E>>,
      <<Set(Parm, <<"k-points">>, IF m THEN [kpoint_mp_grid |-> IVec(r + 3, 3), kpoint_mp_offset |-> Vec(r + 4, 3), num_kpoints |-> I(r + 5, 1)]
                                  ELSE [num_kpoints |-> I(r + 3, 1)])>>)
KList(n, r) == LET pts(z) == [points |-> [k \in 1..n |-> [qpt |-> <<F(r + 2 + k, 1), F(r + 2 + k, 2), F(r + 2 + k, z)>>, weight |-> F(r + 2 + k, 4)]],
                              num_kpoints |-> n] IN
  Sec(<<L("             +++++++++++++++++++++++++++++++++++++++++++++++++++++++"),
        L("             +  Number       Fractional coordinates        Weight  +"),
        L("             +-----------------------------------------------------+")>>
      \o [k \in 1..n |-> T("             +  {0:4d}  {f1:9.6f}  {f2:9.6f}  {f3:9.6f}  {f4:10.7f}  +", <<k>>)]
      \o <<L("             +++++++++++++++++++++++++++++++++++++++++++++++++++++++")>>,
      <<Pinned(Set(Parm, <<"k-points">>, pts(3)), "kpoint-qz", pts(1))>>)
Efield(r) == Sec(<<L("                          Applied Electric Field (eV/A/e)"), R("                         {f1:8.5f}  {f2:8.5f}  {f3:8.5f}")>>,
                 <<Set(Parm, <<"applied_field">>, V3(r + 1))>>)

-----------------------------------------------------------------------------
(* Species and pseudopotentials *)
Spec_ == On("SPECIES_PROPS")
Quantisation(r) == Sec(<<R("         Quantisation axis:   {f1:8.5f}  {f2:8.5f}  {f3:8.5f}")>>, <<Set(Spec_, <<"quantisation_axis">>, V3(r))>>)
PsEnergy(p, r) == LET n == p[1] IN
  Sec(<<T(" Pseudo atomic calculation performed for {0} 3d6 4s2", <<Element(p[2])>>), E,
        R(" Converged in {n:d|1|99} iterations to a total energy of {f1:.4f|-9999|-1} eV")>>
      \o [k \in 1..n |-> T("Charge spilling parameter for spin component {0} = {f1:.2f|0|9}%", <<k>>)] \o <<E>>,
      <<Set(Spec_, <<"species_properties", Element(p[2]), "pseudo_atomic_energy">>, F(r + 2, 1))>>
      \o (IF n > 0 THEN <<Set(Spec_, <<"species_properties", Element(p[2]), "charge_spilling">>, [k \in 1..n |-> Calc(<< <<1, 100, <<F(r + 2 + k, 1)>> >> >>)])>>
          ELSE <<>>))
Mass(n, r) == Sec(<<L("                               Mass of species in AMU")>>
                  \o [k \in 1..n |-> T("                                    {0:<4} {f1:11.7f|1|250}", <<Kind(k)>>)] \o <<E>>,
                  <<Def(Spec_, <<"species_properties">>)>> \o [k \in 1..n |-> Set(Spec_, <<"species_properties", Kind(k), "mass">>, F(r + k, 1))])
Quadrupole(p, r) == LET n == p[1] IN
  Sec(<<L("                          Electric Quadrupole Moment (Barn)")>>
      \o [k \in 1..n |-> T("                                    {0:<4} {f1:10.7f} {1}", <<Kind(k), IF k % 2 = 1 THEN "Isotope 55" ELSE "No Isotope Defined">>)]
      \o <<IF p[2] = "blank" THEN E ELSE L("         xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")>>,
      <<Def(Spec_, <<"species_properties">>)>>
      \o [k \in 1..n |-> Set(Spec_, <<"species_properties", Kind(k), "electric_quadrupole_moment">>, F(r + k, 1))])
\* pseudopotentials: strings are decomposed only if PSPOT is selected
PotParts == [print |-> FALSE, poly_fit |-> FALSE, local_channel |-> Dec("3"), core_radius |-> Dec("1.8"), beta_radius |-> Dec("1.8"), r_inner |-> Dec("0.6"),
             coarse |-> Dec("12"), medium |-> Dec("14"), fine |-> Dec("16"), string |-> "3|1.8|1.8|0.6|12|14|16|30U:40:31", beta_function_string |-> "30U:40:31",
             beta_functions |-> <<[orbital |-> 3, shell |-> "s", shell_ind |-> 0, projectors |-> << [type |-> "U"] >>],
                                  [orbital |-> 4, shell |-> "s", shell_ind |-> 0, projectors |-> <<>>],
                                  [orbital |-> 3, shell |-> "p", shell_ind |-> 1, projectors |-> <<>>]>>]
Pots(n, r) ==
  LET row(k) == CASE k % 3 = 1 -> T("                                    {0:<4} {s1}.usp", <<Kind(k)>>)
                  [] k % 3 = 2 -> T("                                    {0:<4} 3|1.8|1.8|0.6|12|14|16|30U:40:31", <<Kind(k)>>)
                  [] k % 3 = 0 -> T("                                    {0:<4} an  on-the-fly", <<Kind(k)>>)
      path(k) == <<"species_properties", Kind(k), "pseudopot">>
      con(k) == CASE k % 3 = 1 -> <<Set(Spec_, path(k), Cat(<<S(r + k, 1), ".usp">>))>>
                  [] k % 3 = 2 -> <<Unless(Set(Spec_, path(k), "3|1.8|1.8|0.6|12|14|16|30U:40:31"), {"PSPOT"}),
                                    Set({{"SPECIES_PROPS", "PSPOT"}}, path(k), PotParts)>>
                  [] k % 3 = 0 -> <<Set(Spec_, path(k), "on-the-fly")>>
  IN Sec(<<L("                                  Files used for pseudopotentials:")>> \o [k \in 1..n |-> row(k)] \o <<E>>,
         <<Def(Spec_, <<"species_properties">>)>> \o FlattenSeq([k \in 1..n |-> con(k)]))
Psp == On("PSPOT")
Orb == <<"1s", "2s2", "3s1/2", "3p3/2", "4d10", "4f">>
\* p: orbitals, projectors, with spin-orbit column, with the augmentation rows, level of theory, solver, a small charge or the definition's string
Report(p, r) ==
  LET no == p[1] nb == p[2]
      ob == r + 7
      bb == ob + no + 3
      beta(k) == IF k = nb THEN "loc" ELSE "#"
      row(k) == "   |      " \o (IF k = nb THEN "  loc" ELSE "{ib:5d|1|12}") \o "     {il:1d|0|3}    " \o (IF p[3] THEN "{ij:1d|1|7}" ELSE " ")
                \o "  {fe:7.3f}  {fr:6.3f|0|9}     {ss}     {in:1d|0|3}        |"
  IN Sec(<<L("   ============================================================"), L("   | Pseudopotential Report - Date of generation 14-07-2023   |"),
           L("   ------------------------------------------------------------"),
           T(IF p[7] = "small" THEN "   | Element: {0} Ionic charge: {f1:5.2f|1|9.9} Level of theory: {1}     |"
             ELSE "   | Element: {0} Ionic charge: {f1:5.2f|10|60} Level of theory: {1}     |", <<"@sp1", p[5]>>),
           T("   | Atomic Solver: {0}                           |", <<p[6]>>),
           L("   |               Reference Electronic Structure             |"),
           L("   |         Orbital         Occupation         Energy        |")>>
         \o [k \in 1..no |-> T("   |          {0:<12}      {f1:9.3f|0|14}        {f2:9.3f|-999|9}         |", <<Orb[k]>>)]
         \o <<L("   |                                                          |"),
              L("   |                 Pseudopotential Definition               |"),
              L("   |      Beta    l   2j     e      Rc     scheme   norm      |")>>
         \o [k \in 1..nb |-> T(row(k), <<>>)]
         \o (IF p[4] THEN <<R("   | Augmentation charge Rinner = {f1:5.3f|0|3}                       |"),
                            R("   | Partial core correction Rc = {f1:5.3f|0|3}                       |")>>
             ELSE <<L("   | No charge augmentation                                   |"), L("   | No partial core correction                               |")>>)
         \o (IF p[7] = "string" THEN <<L("   ------------------------------------------------------------"),
                                       L("   | \"3|1.8|1.8|0.6|12|14|16|30U:40:31\"                       |")>> ELSE <<>>)
         \o <<L("   ------------------------------------------------------------"), L("   |      Author: Chris J. Pickard, Cambridge University      |"),
              L("   ============================================================")>>,
         LET charge == << <<"element", "@sp1">>, <<"ionic_charge", F(r + 3, 1)>>, <<"level_of_theory", p[5]>> >>
             rest == << <<"solver", p[6]>>,
                   <<"reference_electronic_structure", [k \in 1..no |-> [orb |-> Orb[k], occupation |-> F(ob + k - 1, 1), energy |-> F(ob + k - 1, 2)]]>>,
                   <<"pseudopotential_definition",
                     [k \in 1..nb |-> Map(<< <<"beta", IF k = nb THEN Lit("loc") ELSE I(bb + k - 1, "b")>>, <<"l", I(bb + k - 1, "l")>>,
                                             <<"j", IF p[3] THEN I(bb + k - 1, "j") ELSE None>>, <<"e", F(bb + k - 1, "e")>>, <<"Rc", F(bb + k - 1, "r")>>,
                                             <<"scheme", S(bb + k - 1, "s")>>, <<"norm", I(bb + k - 1, "n")>> >>)]>> >>
                \o (IF p[4] THEN << <<"augmentation_charge_rinner", <<F(bb + nb, 1)>> >>, <<"partial_core_correction", <<F(bb + nb + 1, 1)>> >> >> ELSE <<>>)
         IN <<CASE p[7] = "" -> Add(Psp, <<"pspot_detail">>, Map(charge \o rest))
                [] p[7] = "small" -> Pinned(Add(Psp, <<"pspot_detail">>, Map(charge \o rest)), "pspot-charge", Map(rest))
                [] p[7] = "string" -> Pinned(Add(Psp, <<"pspot_detail">>, Map(charge \o rest \o << <<"detail", PotParts>> >>)), "pspot-string", Map(charge \o rest))>>)
PspDebug(n, r) ==
  Sec([k \in 1..n |-> T(" {0} eigenvalue nl {in:d|10|69} = {f1:.8f|-99|0}", <<IF k % 3 = 0 THEN "PS" ELSE "AE">>)],
      [k \in 1..n |-> Add(Psp, <<"pspot_debug">>, [type |-> IF k % 3 = 0 THEN "PS" ELSE "AE", nl |-> I(r + k - 1, "n"), eigenvalue |-> F(r + k - 1, 1)])])

-----------------------------------------------------------------------------
(* Energies and the self-consistent cycle *)
Scf == On("SCF")
ScfLine == L("------------------------------------------------------------------------ <-- SCF")
ScfHead(fixed) == <<IF fixed THEN L("SCF loop      Energy                           Energy gain       Timer   <-- SCF")
                    ELSE L("SCF loop      Energy           Fermi           Energy gain       Timer   <-- SCF"),
                    IF fixed THEN L("                                               per atom          (sec)   <-- SCF")
                    ELSE L("                               energy          per atom          (sec)   <-- SCF"), ScfLine>>
CycleRow(fixed, k) ==
  IF k = 0 THEN (IF fixed THEN R("Initial {f1:17.8E3|-9999|9999}                                  {f4:11.2f|0|99999}  <-- SCF")
                 ELSE R("Initial {f1:17.8E3|-9999|9999}{f2:17.8E3}                 {f4:11.2f|0|99999}  <-- SCF"))
  ELSE IF fixed THEN T("{0:7d} {f1:17.8E3|-9999|9999}                  {f3:17.8E3}{f4:10.2f|0|99999}  <-- SCF", <<k>>)
  ELSE T("{0:7d} {f1:17.8E3|-9999|9999}{f2:17.8E3} {f3:17.8E3}{f4:11.2f|0|99999}  <-- SCF", <<k>>)
Cycle(fixed, k, r) == [energy |-> F(r, 1), fermi_energy |-> IF fixed THEN None ELSE F(r, 2), energy_gain |-> IF k = 0 THEN None ELSE F(r, 3), time |-> F(r, 4)]
\* n cycles after the initial one; every other cycle is followed by a note
NoteRow(a) == CASE a = "unmixed" -> L(" Density was not mixed in this cycle")
                [] a = "norm" -> R(" Norm of density residual is {f1:25.16E3|0|9}")
                [] a = "constraint" -> R(" Total constraint energy: {f1:25.16E3|-9|9} eV")
                [] a = "dipole" -> R(" Correcting PBC dipole-dipole with self-consistent method: dE = {f1:13.5f} eV")
NoteKey == [unmixed |-> "density_residual", norm |-> "density_residual", constraint |-> "constraint_energy", dipole |-> "dipole_corr_energy"]
NoteVal(a, r) == IF a = "unmixed" THEN None ELSE F(r, 1)
ScfTable(p, r) ==
  LET noted(k) == p[3] # "" /\ k % 2 = 1
      \* row of cycle k
      at(k) == r + 4 + k + (IF p[3] = "" THEN 0 ELSE k \div 2)
      cyc(k) == Cycle(p[1], k, at(k)) @@ (IF noted(k) THEN (NoteKey[p[3]] :> NoteVal(p[3], at(k) + 1)) ELSE Empty)
  IN [rows |-> <<ScfLine>> \o ScfHead(p[1]) \o FlattenSeq([k \in 1..p[2] + 1 |-> <<CycleRow(p[1], k - 1)>> \o (IF noted(k - 1) THEN <<NoteRow(p[3])>> ELSE <<>>)])
               \o <<ScfLine>>, v |-> [k \in 1..p[2] + 1 |-> cyc(k - 1)]]
ScfSec(p, r) == LET t == ScfTable(p, r) IN Sec(t.rows, <<Add(Scf, <<"scf">>, t.v)>>)
EnergyRows == <<R("Final energy, E             =  {f1:.10f|-9999|-1}     eV"), R("Final free energy (E-TS)    =  {f1:.10f|-9999|-1}     eV"),
                R("NB est. 0K energy (E-0.5TS)      =  {f1:.10f|-9999|-1}     eV"), R("(SEDC) Total Energy Correction : {f1:.6E} eV"),
                R("Dispersion corrected final energy* =  {f1:.9f|-9999|-1}     eV"), R(" Total energy corrected for finite basis set = {f1:14.6f|-9999|-1} eV"),
                R("Final energy = {f1:.9f|-9999|-1}     eV")>>
EnergyKeys == <<"final_energy", "free_energy", "est_0K", "sedc_correction", "disperson_corrected", "final_basis_set_corrected", "final_energy">>
\* p: which energies are printed
Energies(p, r) == Sec([k \in 1..Len(p) |-> EnergyRows[p[k]]], [k \in 1..Len(p) |-> Add(Always, <<"energies", EnergyKeys[p[k]]>>, F(r + k - 1, 1))])
SolvE(r) == Sec(<<R(" Free energy of solvation         = {f1:25.17f} eV")>>, <<Add(On("SOLVATION"), <<"energies", "solvation">>, F(r, 1))>>)
DeDlnE(r) == Sec(<<R(" For future reference: finite basis dEtot/dlog(Ecut) = {f1:14.6f}eV")>>, <<Set(Always, <<"dedlne">>, F(r, 1))>>)
\* a finite-basis correction with n cut-offs: the last SCF is the run's, the others and their energies are kept apart
SpinN == {{"SCF"}, {"SPIN"}}
Bsc(p, r) ==
  LET n == p[1]
      extra == CASE p[3] = "warn" -> <<R("Warning in {s1} at this cut-off"), E>>
                 [] p[3] = "spin" -> <<R("Integrated Spin Density     = {f1:15.6E} hbar/2"), R("Integrated |Spin Density|   = {f1:15.6f|0|9} hbar/2")>>
                 [] OTHER -> <<>>
      ne == Len(extra)
      one == ScfTable(<<FALSE, p[2], "">>, r)
      size == Len(one.rows) + 5 + ne
      at(k) == r + 1 + (k - 1) * size          \* row of the title of calculation k
      tab(k) == ScfTable(<<FALSE, p[2], "">>, at(k) + 1 + ne)
      block(k) == <<R("Calculating total energy with cut-off of {x:8.3f|80|900} eV.")>> \o extra \o tab(k).rows
                  \o <<E, EnergyRows[1], EnergyRows[2], EnergyRows[3]>>
      en(k, j) == F(at(k) + Len(one.rows) + 1 + ne + j, 1)
  IN Sec(<<T("Calculating finite basis set correction with {0:2d} cut-off energies.", <<n>>)>> \o FlattenSeq([k \in 1..n |-> block(k)]),
         <<Set(Scf, <<"scf">>, tab(n).v), Set(Scf, <<"bsc_scf">>, [k \in 1..n - 1 |-> tab(k).v])>>
         \o (IF n > 1 THEN <<Set(Always, <<"bsc_energies">>, [final_energy |-> [k \in 1..n - 1 |-> en(k, 1)], free_energy |-> [k \in 1..n - 1 |-> en(k, 2)],
                                                              est_0K |-> [k \in 1..n - 1 |-> en(k, 3)]])>> ELSE <<>>)
         \o [j \in 1..3 |-> Add(Always, <<"energies", EnergyKeys[j]>>, en(n, j))]
         \o FlattenSeq([k \in 1..n |-> CASE p[3] = "warn" -> <<Add(Sys, <<"warning">>, Spaced(<<Cat(<<"Warning in ", S(at(k) + 1, 1), " at this cut-off">>)>>))>>
                                         [] p[3] = "spin" -> <<Add(SpinN, <<"spin">>, F(at(k) + 1, 1)), Add(SpinN, <<"modspin">>, F(at(k) + 2, 1))>>
                                         [] OTHER -> <<>>]))
LineMin(n, r) ==
  LET cols(spec) == FoldSeq(LAMBDA k, s : s \o "{f" \o ToString(k) \o ":12.3E3}" \o (IF k = n THEN "*" ELSE " "), "", [k \in 1..n |-> k])
      none == [k \in 1..5 |-> FoldSeq(LAMBDA j, s : s \o "unnecessary ", "", [j \in 1..k |-> j])] IN
  Sec(<<L("+------------------- WAVEFUNCTION LINE MINIMISATION --------------------+<- line"),
        R("| Initial energy = {f1:.6E|-9999|9999} eV; initial dE/dstep = {f2:.3E} eV |<- line"),
        L("|                                                                       |<- line"),
        L("|            1st step    2nd step    3rd step    4th step    5th step   |<- line"),
        L("+--------+--------------------------------------------------------------+<- line"),
        R("| step   |" \o cols(1) \o (IF n = 5 THEN "" ELSE none[5 - n]) \o " |<- line"),
        R("| gain   |" \o cols(1) \o (IF n = 5 THEN "" ELSE none[5 - n]) \o " |<- line"),
        L("+--------+--------------------------------------------------------------+<- line")>>,
      <<Add(Scf, <<"wvfn_line_min">>, [init_energy |-> F(r + 1, 1), init_de_dstep |-> F(r + 1, 2), steps |-> Vec(r + 5, n), gain |-> Vec(r + 6, n)])>>)
Occupancies(n, r) ==
  Sec(<<L("Band energies and occupancies for bands close to Fermi energy     <- occ"), R("Spin 1, kpoint ({x:10.6f}{x:10.6f}{x:10.6f} ) weight = {x:8.6f|0|1}"),
        L("+--------+-------------------+----------------+"), L("|  Band  |   Eigenvalue      |    Occupancy   |                   <- occ"),
        L("+--------+-------------------+----------------+                   <- occ")>>
      \o Copies(n, R("|{ib:6d|1|9999}  |{f1:15.6E}    |{f2:15.6E|0|2} |                   <- occ"))
      \o <<L("+--------+-------------------+----------------+                   <- occ"), L("Have a nice day.")>>,
      <<Add(Scf, <<"occupancies">>, [k \in 1..n |-> [band |-> I(r + 4 + k, "b"), eigenvalue |-> F(r + 4 + k, 1), occupancy |-> F(r + 4 + k, 2)]])>>)
SpinDensity(form, r) ==
  IF form = "scalar" THEN Sec(<<R("Integrated Spin Density     = {f1:15.6E} hbar/2"), R("Integrated |Spin Density|   = {f1:15.6f|0|9} hbar/2")>>,
                              <<Add(SpinN, <<"spin">>, F(r, 1)), Add(SpinN, <<"modspin">>, F(r + 1, 1))>>)
  ELSE Sec(<<R("2*Integrated Spin Density (Sx,Sy,Sz) = {f1:15.5f}{f2:15.5f}{f3:15.5f}     hbar/2"),
             R("2*Integrated |Spin Density| (|Sx|,|Sy|,|Sz|) = {f1:15.5f|0|9}{f2:15.5f|0|9}{f3:15.5f|0|9}     hbar/2")>>,
           <<Add(SpinN, <<"spin">>, V3(r)), Add(SpinN, <<"modspin">>, V3(r + 1))>>)
AutoSolv(r) ==
  Sec(<<L(" ********************** AUTOSOLVATION CALCULATION RESULTS **********************"), L(" Calculation succeeded:"),
        R(" Total energy in solvent          = {f1:25.17f|-999|999} eV"), R(" -Total energy in vacuum          = {f1:25.17f|-999|999} eV"),
        L(" ----------------------------------"), R(" Free energy of solvation         = {f1:25.17f} eV"), E,
        R("  (Apolar cavitation energy       = {f1:25.17f} eV)"), R("  (Total polar solvation energy   = {f1:25.17f} eV)"),
        L(" *******************************************************************************")>>,
      <<Set(On("SOLVATION"), <<"autosolvation">>,
            [total_energy_in_solvent |-> F(r + 2, 1), total_energy_in_vacuum |-> F(r + 3, 1), free_energy_of_solvation |-> F(r + 5, 1),
             apolar_cavitation_energy |-> F(r + 7, 1), total_polar_solvation_energy |-> F(r + 8, 1)])>>)

-----------------------------------------------------------------------------
(* Cell and positions *)
CellRows == <<R("     {f1:9.7f}    {f2:10.7f}    {f3:10.7f}        {f4:12.9f}  {f5:12.9f}  {f6:12.9f}"),
              R("    {f1:10.7f}    {f2:10.7f}    {f3:10.7f}        {f4:12.9f}  {f5:12.9f}  {f6:12.9f}"),
              R("    {f1:10.7f}    {f2:10.7f}    {f3:10.7f}        {f4:12.9f}  {f5:12.9f}  {f6:12.9f}"), E,
              L("                       Lattice parameters(A)       Cell Angles"),
              R("                    a =  {f1:12.6f|1|999}          alpha = {f2:11.6f|20|160}"), R("                    b =  {f1:12.6f|1|999}          beta  = {f2:11.6f|20|160}"),
              R("                    c =  {f1:12.6f|1|999}          gamma = {f2:11.6f|20|160}"), E,
              R("                Current cell volume = {f1:18.6f|1|99999}       A**3"), R("                            density = {f1:18.6f|0|99}   AMU/A**3"),
              R("                                    = {f1:18.6f|0|99}   g/cm^3"), E>>
\* r is the row of the first lattice vector
CellVal(r) == [real_lattice |-> [k \in 1..3 |-> VecFrom(r + k - 1, 1, 3)], recip_lattice |-> [k \in 1..3 |-> VecFrom(r + k - 1, 4, 6)],
               lattice_parameters |-> [k \in 1..3 |-> F(r + 4 + k, 1)], cell_angles |-> [k \in 1..3 |-> F(r + 4 + k, 2)],
               volume |-> F(r + 9, 1), density_amu |-> F(r + 10, 1), density_g |-> F(r + 11, 1)]
CellHead == <<L("                           -------------------------------"), L("                                      Unit Cell"),
              L("                           -------------------------------"), L("        Real Lattice(A)                      Reciprocal Lattice(1/A)")>>
UnitCell(r) == Sec(CellHead \o CellRows, <<Set(On("CELL"), <<"initial_cell">>, CellVal(r + 4))>>)
Supercell(r) == Sec(<<R("    Supercell generated using matrix  [{i1:d|-3|9},{i2:d|-3|9},{i3:d|-3|9}; {i4:d|-3|9},{i5:d|-3|9},{i6:d|-3|9}; {i7:d|-3|9},{i8:d|-3|9},{i9:d|-3|9}]")>>,
                    <<Set(Always, <<"supercell">>, <<Vec(r, 3), VecFrom(r, 4, 6), VecFrom(r, 7, 9)>>)>>)
\* p: symmetry operations, related atoms, ionic constraints (atoms) or -1, supercell line, centre of mass constrained
Symmetry(p, r) ==
  LET nop == p[1] nat == p[2] nic == p[3]
      sup == IF p[4] THEN <<R("                      Cell is a supercell containing {i1:d|2|64} primitive cells")>> ELSE <<>>
      a == r + 3 + Len(sup)
      op(q) == <<T("                {0:5d} rotation", <<q>>)>> \o Copies(3, R("                 ( {f1:15.11f} {f2:15.11f} {f3:15.11f} )"))
               \o <<T("                {0:5d} displacement", <<q>>), R("                 ( {f1:15.11f} {f2:15.11f} {f3:15.11f} )"),
                    L("                      symmetry related atoms:")>>
               \o [k \in 1..nat |-> IF k = 1 THEN T("             {0:>2}:    1  12", <<Kind(k)>>) ELSE T("             {0:>2}:    7", <<Kind(k)>>)] \o <<E>>
      osize == 8 + nat
      oat(q) == a + 5 + (q - 1) * osize
      al == Atoms("tag", IF nic > 0 THEN nic ELSE 0)
      ions == IF nic > 0 THEN <<L("            xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx...."),
                L("            x  Element    Atom   Dir          There are linear ionic constraints.....")>>
              \o FlattenSeq([k \in 1..nic |-> [d \in 1..3 |-> T("            x {0:<12}{1:>9d}       {2} {f1:16.4f|-999999|999999}{f2:12.4f}{f3:12.4f}",
                                                              al[k] \o << <<"x", "y", "z">>[d] >>)]])
              \o <<L("            xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx....")>>
              ELSE <<L("             Set iprint > 1 for details of linear ionic constraints")>>
      i0 == a + 5 + nop * osize + 1 + 2
      z == a + 5 + nop * osize + 1 + Len(ions)
  IN Sec(<<L("                           -------------------------------"), L("                               Symmetry and Constraints"),
           L("                           -------------------------------")>> \o sup
         \o <<R("                      Maximum deviation from symmetry = {f1:8.5f|0|1}         ANG"),
              R("                      Number of symmetry operations   = {i1:11d|1|192}"), R("                      Number of ionic constraints     = {i1:11d|0|999}"),
              R("                      Point group of crystal =   {i1:3d|1|32}: C1, 1, 1bar"), R("                      Space group of crystal =   {i1:3d|1|230}: P4_132, P 4bd 2ab 3")>>
         \o FlattenSeq([q \in 1..nop |-> op(q)])
         \o <<T("                         Centre of mass is{0}constrained", <<IF p[5] THEN " " ELSE " NOT ">>)>> \o ions
         \o <<R("                         Number of cell constraints= {i1:d|0|6}"),
              R("                         Cell constraints are:  {i1:d|0|6} {i2:d|0|6} {i3:d|0|6} {i4:d|0|6} {i5:d|0|6} {i6:d|0|6}")>>,
         <<Set(On("SYMMETRIES"), <<"symmetries">>,
               Map((IF p[4] THEN << <<"n_primitives", I(r + 3, 1)>> >> ELSE <<>>)
                   \o << <<"max_deviation", F(a, 1)>>, <<"num_symmetry_operations", I(a + 1, 1)>>,
                         <<"point_group", [id |-> I(a + 3, 1), schoenflies |-> "C1", hermann_mauguin |-> "1", hermann_mauguin_full |-> "1bar"]>>,
                         <<"space_group", [id |-> I(a + 4, 1), international |-> "P4_132", hall |-> "P 4bd 2ab 3"]>> >>
                   \o (IF nop > 0 THEN << <<"symop",
                        [q \in 1..nop |-> [rotation |-> Mat(oat(q) + 1, 3, 3), displacement |-> V3(oat(q) + 5),
                                           symmetry_related |-> IF nat = 0 THEN <<>>
                                              ELSE << <<Kind(1), 1>>, <<Kind(1), 12>> >> \o [k \in 1..nat - 1 |-> <<Kind(k + 1), 7>>]]]>> >> ELSE <<>>))),
           Set(On("SYMMETRIES"), <<"constraints">>,
               Map(<< <<"num_ionic_constraints", I(a + 2, 1)>>, <<"com_constrained", p[5]>>,
                      <<"num_cell_constraints", I(z, 1)>>, <<"cell_constraints", IVec(z + 1, 6)>> >>
                   \o (IF nic > 0 THEN << <<"ionic_constraints", Map([k \in 1..nic |-> <<al[k], [d \in 1..3 |-> V3(i0 + (k - 1) * 3 + d - 1)]>>])>> >> ELSE <<>>)))>>)
Xs == "        xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
PosRow == "        x  {0:<12}{1:>4d}      {f1:10.6f} {f2:10.6f} {f3:10.6f}   x"
AtomTable(title, al) == <<L(Xs), L(title), L("        x            Number           u          v          w      x"),
                          L("        x----------------------------------------------------------x")>> \o AtomRows(PosRow, al) \o <<L(Xs)>>
Fractional == "        x  Element    Atom        Fractional coordinates of atoms  x"
Positions(p, r) == LET al == Atoms(p[1], p[2]) IN
  Sec(<<L("                                     Cell Contents"), E>> \o AtomTable(Fractional, al),
      <<Set(On("POSITION"), <<"initial_positions">>, IF p[2] = 0 THEN Mark ELSE AtomMap(al, r + 6, V3))>>)
Velocities(p, r) == LET al == Atoms(p[1], p[2]) IN
  Sec(AtomTable("        x  Element    Atom        User Supplied Ionic Velocities   x", al),
      <<Set(On("POSITION"), <<"initial_velocities">>, IF p[2] = 0 THEN Mark ELSE AtomMap(al, r + 4, V3))>>)
\* positions with user-defined labels, some of them blank
Labelled(n, r) == LET al == [k \in 1..n |-> <<Atom("plain", n, k)[1], Atom("plain", n, k)[2] + (r % 5)>>]  \* other atoms elsewhere
                      key(k) == IF k % 3 = 0 THEN al[k] ELSE <<Cat(<<al[k][1], " [", S(r + 3 + k, "l"), "]">>), al[k][2]>>
                      x == "     xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" IN
  Sec(<<L(x), L("     x  Element    Atom        Fractional coordinates of atoms  User-defined  x"),
        L("     x            Number           u          v          w          LABEL     x"),
        L("     x------------------------------------------------------------------------x")>>
      \o [k \in 1..n |-> IF k % 3 = 0 THEN T("     x  {0:<8}{1:>6d}       {f1:10.6f} {f2:10.6f} {f3:10.6f}                 x", al[k])
                         ELSE T("     x  {0:<8}{1:>6d}       {f1:10.6f} {f2:10.6f} {f3:10.6f}     {wl:<8}    x", al[k])]
      \o <<L(x)>>,
      <<Set(On("POSITION"), <<"initial_positions">>, Map([k \in 1..n |-> <<key(k), V3(r + 3 + k)>>])),
        Upd(On("POSITION"), <<"labels">>, [k \in 1..n |-> <<al[k], IF k % 3 = 0 THEN Lit("NULL") ELSE S(r + 3 + k, "l")>>])>>)
\* mixtures: n sites of c components each
Mixture(p, r) ==
  LET n == p[1] c == p[2]
      comp(j, k) == Element(j) \o (IF (j + k) % 3 = 0 THEN " [A1]" ELSE IF (j + k) % 3 = 1 THEN "" ELSE ":MyTag")
      at(k, j) == r + 4 + (k - 1) * c + j - 1 IN
  Sec(<<L("        xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"),
        L("        x  Mixture   Fractional coordinates of atoms  Components  Weights  x"),
        L("        x   atoms       u          v          w                            x"),
        L("        x------------------------------------------------------------------x")>>
      \o FlattenSeq([k \in 1..n |-> [j \in 1..c |-> IF j = 1 THEN T("        x {0:4d}      {f1:10.6f} {f2:10.6f} {f3:10.6f}   {1:<8}{f4:10.6f|0|1}  x", <<k * 6, comp(j, k)>>)
                                                   ELSE T("        x                                              {1:<8}{f4:10.6f|0|1}  x", <<k, comp(j, k)>>)]])
      \o <<L("        xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")>>,
      <<Set(On("POSITION"), <<"initial_positions">>,
            Map(FlattenSeq([k \in 1..n |-> [j \in 1..c |-> << <<comp(j, k), k * 6>>, [pos |-> V3(at(k, 1)), weight |-> F(at(k, j), 4)]>>]])))>>)
States(p, r) == LET al == Atoms(p[2], p[3]) IN
  Sec(<<L(Xs), T("        x                          {0}                        x", <<IF p[1] = "reactant" THEN "Reactant" ELSE "Product ">>)>>
      \o AtomTable(Fractional, al),
      <<Set({{"TSS", "POSITION"}}, <<p[1]>>, IF p[3] = 0 THEN Mark ELSE AtomMap(al, r + 6, V3))>>)

-----------------------------------------------------------------------------
(* Forces and stresses *)
ForceTitle == <<" ************************************** Forces **************************************",
                " ********************************* Symmetrised Forces *******************************",
                " ******************************** Constrained Forces ********************************",
                " *************************** Constrained Symmetrised Forces *************************">>
ForceKey == <<"non_descript", "symmetrised", "constrained", "constrained_symmetrised">>
\* p: which forces, atom form, atoms, marks after the components
Forces(p, r) == LET al == Atoms(p[2], p[3])
                    bar == L(" *                                                                                  *") IN
  Sec(<<L(ForceTitle[p[1]]), bar, L(" *                           Cartesian components (eV/A)                            *"),
        L(" * -------------------------------------------------------------------------------- *"),
        L(" *                         x                    y                    z              *"), bar>>
      \o [k \in 1..Len(al) |->
            CASE p[4] = "" -> T(" * {0:<12}{1:>5d}  {f1:11.5f|-999|999}          {f2:11.5f|-999|999}          {f3:11.5f|-999|999}         *", al[k])
              [] p[4] = "cons" -> IF k % 2 = 1 THEN T(" * {0:<12}{1:>5d}  {f1:11.5f}(cons'd)  {f2:11.5f}(cons'd)  {f3:11.5f}(cons'd) *", al[k])
                                  ELSE T(" * {0:<12}{1:>5d}  {f1:11.5f}          {f2:11.5f}(cons'd)  {f3:11.5f}         *", al[k])
              [] p[4] = "mixed" -> T(" * {0:<12}{1:>5d}  {f1:11.5f} (mixed)  {f2:11.5f} (mixed)  {f3:11.5f} (mixed) *", al[k])]
      \o <<bar, L(" ************************************************************************************")>>,
      <<Add(On("FORCE"), <<"forces", ForceKey[p[1]]>>, IF p[3] = 0 THEN Mark ELSE AtomMap(al, r + 6, V3))>>)
ComForce(r) == Sec(<<L("firstd_calculate: removing force on centre of mass"), R(" dFx: {f1:24.16E3} eV/A"), R(" dFy: {f1:24.16E3} eV/A"), R(" dFz: {f1:24.16E3} eV/A"), E>>,
                   <<Add(On("FORCE"), <<"forces", "com_force_removal">>, <<F(r + 1, 1), F(r + 2, 1), F(r + 3, 1)>>)>>)
StressTitle == <<" ***************** Stress Tensor *****************", " *********** Symmetrised Stress Tensor ***********", " *************** Fun Stress Tensor ***************">>
StressKey == <<"non_descript", "symmetrised", "fun">>
Stress(w, r) == LET bar == L(" *                                               *") IN
  Sec(<<L(StressTitle[w]), bar, L(" *          Cartesian components (GPa)           *"), L(" * --------------------------------------------- *"),
        L(" *             x             y             z     *"), bar,
        R(" *  x {f1:14.6f|-9999|9999}{f2:14.6f|-999|999}{f3:14.6f|-999|999}  *"), R(" *  y {x:14.6f}{f2:14.6f|-999|999}{f3:14.6f|-999|999}  *"),
        R(" *  z {x:14.6f}{x:14.6f}{f3:14.6f|-999|999}  *"), bar, R(" *  Pressure:{x:10.4f}                          *"), bar,
        L(" *************************************************")>>,
      <<Add(On("STRESS"), <<"stresses", StressKey[w]>>, <<F(r + 6, 1), F(r + 6, 2), F(r + 6, 3), F(r + 7, 2), F(r + 7, 3), F(r + 8, 3)>>)>>)

-----------------------------------------------------------------------------
(* Phonons *)
Ph == On("PHONON")
PhLine == " + -------------------------------------------------------------------------- +"
PhDots == " + .......................................................................... +"
Irr == <<"a", "b", "c", "d">>
\* a mode row: form 1 plain, 2 with irreps, 3 with infrared and Raman activity, 4 with Raman intensities, 5 infrared without Raman
ModeRow(form, k) ==
  CASE form = 1 -> T(" +  {0:4d}    {f1:11.6f|-99|4999}                                                    +", <<k>>)
    [] form = 2 -> T(" +  {0:4d}    {f1:11.6f|-99|4999}   {1}                                                +", <<k, Irr[(k % 4) + 1]>>)
    [] form = 3 -> T(" +  {0:4d}    {f1:11.6f|-99|4999}   {1}       {f2:12.7f|0|999}  {2}                       {3}     +",
                     <<k, Irr[(k % 4) + 1], IF k % 2 = 0 THEN "N" ELSE "Y", IF k % 3 = 0 THEN "N" ELSE "Y">>)
    [] form = 4 -> T(" +  {0:4d}    {f1:11.6f|-99|4999}   {1}       {f2:12.7f|0|999}  {2}       {f3:12.7f|0|999}  {3}     +",
                     <<k, Irr[(k % 4) + 1], IF k % 2 = 0 THEN "N" ELSE "Y", IF k % 3 = 0 THEN "N" ELSE "Y">>)
    [] form = 5 -> T(" +  {0:4d}    {f1:11.6f|-99|4999}            {f2:12.7f|0|999}                                  +", <<k>>)
\* a q-point of n modes; chars: 0 no character table, 1 unnamed, 2 named representations
Reps(n) == 1 + (n % 4)
RepNames == <<"B1g", "A1", "Eu", "A2u">>
QRows(q, form, n, lo, chars) ==
  <<L(PhLine), T(" +  q-pt={0:5d} (" \o (IF lo THEN "  0.000000  0.000000  0.000000" ELSE "{f1:10.6f}{f2:10.6f}{f3:10.6f}") \o ")    {x:13.10f|0|1}              +", <<q>>)>>
  \o (IF lo THEN <<R(" +  q->0 along ({x:10.6f}{x:10.6f}{x:10.6f})                               +")>> ELSE <<>>)
  \o <<L(PhLine), R(" +  Acoustic sum rule correction < {x:10.6f|0|9} cm-1 applied                    +"),
       L(" +     N      Frequency irrep.    ir intensity active            raman active +"),
       L(" +                (cm-1)         ((D/A)**2/amu)                               +"),
       L(" +                                                                            +")>>
  \o [k \in 1..n |-> ModeRow(form, k)]
  \o <<L(PhDots)>>
  \o (IF chars = 0 THEN <<>> ELSE
      <<L(" +        Character table from group theory analysis of eigenvectors          +"),
        L(" +                           Point Group =   6, C2v                           +"), L(PhDots),
        L(" +  Rep  Mul |    E   2'  m_v -4                                              +"),
        L(" +           | ----------------                                               +")>>
      \o [k \in 1..Reps(n) |-> T((IF chars = 2 THEN " + {0} {1:<6}{i1:1d|1|9} |" ELSE " + {0}       {i1:1d|1|9} |")
                           \o " {i2:4d|-3|3}{i3:4d|-3|3}{i4:4d|-3|3}{i5:4d|-3|3}                                               +",
                           <<Irr[k], RepNames[k]>>)]
      \o <<L(" + -------------------------------------------------------------------------- +")>>)
QSize(n, lo, chars) == 8 + n + (IF lo THEN 1 ELSE 0) + (IF chars = 0 THEN 0 ELSE 6 + Reps(n))
Zeros == [j \in 1..3 |-> Dec("0.0")]
\* r: row of the q-point's first line; the direction of approach goes with the zone centre, which is printed once for each
QVal(form, n, lo, chars, r) ==
  LET m == r + 7 + (IF lo THEN 1 ELSE 0)
      c == m + n + 1 + 5
      col(j) == [k \in 1..n |-> F(m + k - 1, j)]
      yn(z) == [k \in 1..n |-> IF k % z = 0 THEN "N" ELSE "Y"]
      heads == <<"E", "2'", "m_v", "-4">> IN
  Map(<< <<"qpt", IF lo THEN Zeros ELSE V3(r + 1)>> >>
      \o (IF n = 0 THEN <<>> ELSE << <<"N", [k \in 1..n |-> k]>>, <<"frequency", col(1)>> >>)
      \o (IF n > 0 /\ form \in 2..4 THEN << <<"irrep", [k \in 1..n |-> Irr[(k % 4) + 1]]>> >> ELSE <<>>)
      \o (IF n > 0 /\ form \in 3..5 THEN << <<"ir_intensity", col(2)>> >> ELSE <<>>)
      \o (IF n > 0 /\ form \in 3..4 THEN << <<"ir_active", yn(2)>>, <<"raman_active", yn(3)>> >> ELSE <<>>)
      \o (IF n > 0 /\ form = 4 THEN << <<"raman_intensity", col(3)>> >> ELSE <<>>)
      \o (IF chars = 0 THEN <<>> ELSE << <<"char_table",
           [k \in 1..Reps(n) |-> Map(<< <<"chars", [j \in 1..4 |-> <<heads[j], I(c + k - 1, j + 1)>>]>>, <<"mul", I(c + k - 1, 1)>>, <<"rep", Irr[k]>> >>
                               \o (IF chars = 2 THEN << <<"name", RepNames[k]>> >> ELSE <<>>))]>> >>))
\* p: q-points, form, modes, direction line, character table
Phonons(p, r) ==
  LET nq == p[1] size == QSize(p[3], p[4], p[5]) at(q) == r + 7 + (q - 1) * size IN
  Sec(<<L(" =============================================================================="), L(" +                           Vibrational Frequencies                          +"),
        L(" +                           -----------------------                          +"), L(" +                                                                            +"),
        T(" + Performing frequency calculation at {0:2d} wavevectors (q-pts)                 +", <<nq>>),
        L(" + ========================================================================== +"),
        L(" +                                                                            +")>>
      \o FlattenSeq([q \in 1..nq |-> QRows(q, p[2], p[3], p[4], p[5])]) \o <<L(" ==============================================================================")>>,
      <<Set(Ph, <<"phonons">>, [q \in 1..nq |-> QVal(p[2], p[3], p[4], p[5], at(q))])>>)
Cols(n, f) == FoldSeq(LAMBDA k, s : s \o "{" \o f[1] \o ToString(k) \o ":" \o f[2] \o "}", "", [k \in 1..n |-> k])
\* integers, or decimals with n_ columns, in m rows
PhSym(p, r) == LET m == p[2] IN
  Sec(<<L("  ************************************************************************"), T("  Phonon Symmetry Analysis: Elements of {0} with same absolute magnitude", <<p[3]>>),
        L("  ************************************************************************")>>
      \o Copies(m, R(IF p[1] = "int" THEN Cols(m, <<"i", "6d|0|99">>) ELSE Cols(m, <<"f", "6.1f">>))) \o <<E>>,
      <<Add(Ph, <<"phonon_symmetry_analysis">>,
            [title |-> "Elements of " \o p[3] \o " with same absolute magnitude",
             mat |-> [k \in 1..m |-> IF p[1] = "int" THEN IVec(r + 2 + k, m) ELSE Vec(r + 2 + k, m)]])>>)
DynMat(n, r) ==
  LET m == 3 * n
      row(k) == T("{0:4d}{1:4d} " \o Cols(m, <<"f", "18.6f|-9999|9999">>), <<((k - 1) \div 3) + 1, ((k - 1) % 3) + 1>>) IN
  Sec(<<L("  --------------------------------------------------------------------"), L("            Dynamical matrix"), L(" Ion XYZ        real part  ((cm-1)**2)")>>
      \o [k \in 1..m |-> row(k)] \o <<L(" Ion XYZ        imaginary part  ((cm-1)**2)")>> \o [k \in 1..m |-> row(k)]
      \o <<L("  --------------------------------------------------------------------")>>,
      <<Set(Ph, <<"dynamical_matrix">>, [k \in 1..m |-> [j \in 1..m |-> [cpl_ |-> <<F(r + 2 + k, j), F(r + 3 + m + k, j)>>]]])>>)
Raman(n, r) ==
  LET at(k) == r + 3 + (k - 1) * 5 + 1
      t(k, i, j) == F(at(k) + i - 1, j)
      one(k) == <<T(" + Mode number: {0:3d} Raman tensor       Depolarisation Ratio                   +", <<k>>),
                  R(" + {f1:10.4f|-99|99}{f2:10.4f|-99|99}{f3:10.4f|-99|99}    {f4:10.6f|0|1}                               +"),
                  R(" + {f1:10.4f|-99|99}{f2:10.4f|-99|99}{f3:10.4f|-99|99}                                             +"),
                  R(" + {f1:10.4f|-99|99}{f2:10.4f|-99|99}{f3:10.4f|-99|99}                                             +"),
                  L(" +                                                                            +")>> IN
  Sec(<<L(" =============================================================================="), L(" +                      Raman Susceptibility Tensors ((A/amu)*0.5)            +"),
        L(" +----------------------------------------------------------------------------+")>>
      \o FlattenSeq([k \in 1..n |-> one(k)]) \o <<L(" +----------------------------------------------------------------------------+"), E>>,
      <<Add(Ph, <<"raman">>, [k \in 1..n |->
          [tensor |-> Mat(at(k), 3, 3), depolarisation |-> F(at(k), 4),
           trace |-> Calc([i \in 1..3 |-> <<1, 1, <<t(k, i, i)>> >>]),
           ii |-> Calc(<< <<1, 1, <<t(k, 1, 1), t(k, 2, 2)>> >>, <<1, 1, <<t(k, 1, 1), t(k, 3, 3)>> >>, <<1, 1, <<t(k, 2, 2), t(k, 3, 3)>> >>,
                          <<-1, 1, <<t(k, 1, 2), t(k, 2, 1)>> >>, <<-1, 1, <<t(k, 1, 3), t(k, 3, 1)>> >>, <<-1, 1, <<t(k, 2, 3), t(k, 3, 2)>> >> >>)]])>>)

-----------------------------------------------------------------------------
(* Optics *)
Opt == On("OPTICS")
Row3 == "      {f1:10.5f|-99|99}  {f2:10.5f|-99|99}  {f3:10.5f|-99|99}"
Row6 == Row3 \o "      {f4:10.5f|-99|99}  {f5:10.5f|-99|99}  {f6:10.5f|-99|99}"
Half(r, k, a) == [i \in 1..3 |-> VecFrom(r + k + i - 1, a, a + 2)]
Permittivity(two, r) ==
  Sec(<<L(" ==============================================================================="),
        L(IF two THEN "        Optical Permittivity (f->infinity)             DC Permittivity (f=0)" ELSE "      Optical Permittivity (f->infinity)"),
        L("        ----------------------------------             ---------------------")>> \o Copies(3, R(IF two THEN Row6 ELSE Row3))
      \o <<L(" ===============================================================================")>>,
      <<Set(Opt, <<"optical_permittivity">>, Half(r, 3, 1))>> \o (IF two THEN <<Set(Opt, <<"dc_permittivity">>, Half(r, 3, 4))>> ELSE <<>>))
Polarisability(two, r) ==
  Sec(<<L(" ==============================================================================="),
        L(IF two THEN "                                    Polarisabilities (A**3)" ELSE "             Polarisability (A**3)"),
        L(IF two THEN "                Optical (f->infinity)                       Static  (f=0)" ELSE "                   Optical (f->infinity)"),
        L("                ---------------------                       -------------")>> \o Copies(3, R(IF two THEN Row6 ELSE Row3))
      \o <<L(" ===============================================================================")>>,
      <<Set(Opt, <<"optical_polarisability">>, Half(r, 4, 1))>> \o (IF two THEN <<Set(Opt, <<"static_polarisability">>, Half(r, 4, 4))>> ELSE <<>>))
Nlo(r) == Sec(<<L(" ==========================================================================="), L("      Nonlinear Optical Susceptibility (pm/V)"),
                L("      ---------------------------------------")>> \o Copies(3, R(Row6)) \o <<L(" ===========================================================================")>>,
              <<Set(Opt, <<"nlo">>, Mat(r + 3, 3, 6))>>)

-----------------------------------------------------------------------------
(* Thermodynamics *)
Thm == On("THERMODYNAMICS")
Temps == <<"0.0", "100.0", "1250.5">>
\* p: temperatures, atom form, atoms
Adp(p, r) == LET al == Atoms(p[2], p[3]) at(t, k) == r + 6 + (t - 1) * Len(al) + k IN
  Sec(<<L(" =============================================================================="), L("                      Atomic Displacement Parameters (A**2)"),
        L("                      =============================="), E,
        L(" ------------------------------------------------------------------------------"),
        L("      T(K)  Ion        U11       U22       U33       U23       U31       U12"),
        L(" ------------------------------------------------------------------------------")>>
      \o FlattenSeq([t \in 1..p[1] |-> [k \in 1..Len(al) |-> T("   {2:>7}  {0} {1:d}  {f1:10.6f}{f2:10.6f}{f3:10.6f}{f4:10.6f}{f5:10.6f}{f6:10.6f}", al[k] \o <<Temps[t]>>)]])
      \o <<L(" ------------------------------------------------------------------------------")>>,
      <<Set(Thm, <<"atomic_displacements">>, IF p[1] = 0 \/ Len(al) = 0 THEN Mark
            ELSE Map([t \in 1..p[1] |-> <<Temps[t], Map([k \in 1..Len(al) |-> <<al[k], V6(at(t, k))>>])>>]))>>)
Thermo(n, r) ==
  Sec(<<L(" ====================================================================="), L("                             Thermodynamics"), L("                             =============="), E,
        R("            Zero-point energy = {f1:15.6f|0|99}  eV"), L(" ------------------------------------------------------------------------------"),
        L("       T(K)        E(eV)           F(eV)         S(J/mol/K)      Cv(J/mol/K)"), L(" ------------------------------------------------------------------------------")>>
      \o Copies(n, R("   {f1:7.1f|0|2000}{f2:16.6f|-99|99}{f3:16.6f|-99|99}{f4:16.3f|0|999}{f5:16.3f|0|999}"))
      \o <<L(" ------------------------------------------------------------------------------")>>,
      <<Set(Thm, <<"thermodynamics">>,
            Map(<< <<"zero_point_energy", F(r + 4, 1)>> >> \o (IF n = 0 THEN <<>> ELSE [j \in 1..5 |-> << <<"t", "e", "f", "s", "cv">>[j], [k \in 1..n |-> F(r + 7 + k, j)]>>])))>>)

-----------------------------------------------------------------------------
(* Populations *)
Pop == On("POPN_ANALYSIS")
Shells == <<"s", "p", "d", "f", "total">>
\* p: atom form, atoms, with spin
Mulliken(p, r) ==
  LET al == Atoms(p[1], p[2])
      at(k) == IF p[3] THEN r + 3 + 2 * k - 1 ELSE r + 3 + k
      shells(pre, q) == [j \in 1..5 |-> <<pre \o Shells[j], F(q, j)>>]
      val(k) == IF p[3] THEN Map(shells("up_", at(k)) \o shells("dn_", at(k) + 1)
                                 \o << <<"total", Calc(<< <<1, 1, <<F(at(k), 5)>> >>, <<1, 1, <<F(at(k) + 1, 5)>> >> >>)>>,
                                       <<"charge", F(at(k), 6)>>, <<"spin", F(at(k), 7)>>, <<"spin_sep", TRUE>> >>)
                ELSE Map(shells("", at(k)) \o << <<"charge", F(at(k), 6)>>, <<"spin", None>>, <<"spin_sep", FALSE>> >>)
      row(k) == IF p[3] THEN <<T("  {0:<14}{1:4d}   up:{f1:10.3f|0|9}{f2:8.3f|0|9}{f3:8.3f|0|9}{f4:8.3f|0|14}{f5:8.3f|0|40}{f6:10.3f}{f7:13.3f}", al[k]),
                               T("                {1:4d}   dn:{f1:10.3f|0|9}{f2:8.3f|0|9}{f3:8.3f|0|9}{f4:8.3f|0|14}{f5:8.3f|0|40}", al[k])>>
                ELSE <<T("  {0:<14}{1:4d} {f1:9.3f|0|9}{f2:8.3f|0|9}{f3:8.3f|0|9}{f4:8.3f|0|14}{f5:8.3f|0|40}{f6:10.3f}", al[k])>> IN
  Sec(<<L("     Atomic Populations (Mulliken)"), L("     -----------------------------"),
        IF p[3] THEN L("Species          Ion Spin      s       p       d       f      Total   Charge(e)   Spin(hbar/2)")
        ELSE L("Species          Ion     s       p       d       f      Total   Charge (e)"),
        L("==========================================================================")>>
      \o FlattenSeq([k \in 1..Len(al) |-> row(k)]) \o <<L("==========================================================================")>>,
      <<Set(Pop, <<"mulliken_popn">>, Map([k \in 1..Len(al) |-> <<al[k], val(k)>>]))>>)
\* Born charges: an ID on every other atom is part of its name
Born(p, r) ==
  LET al == Atoms(p[1], p[2])
      at(k) == r + 2 + 3 * k - 2
      id(k) == k % 2 = 1
      key(k) == IF id(k) THEN <<Cat(<<al[k][1], " [", S(at(k), "l"), "]">>), al[k][2]>> ELSE al[k]
      row(k) == <<T("   {0:<3}{1:6d}      {f1:10.5f}  {f2:10.5f}  {f3:10.5f}" \o (IF id(k) THEN " ID={wl}" ELSE ""), al[k]),
                  R("                  {f1:10.5f}  {f2:10.5f}  {f3:10.5f}"), R("                  {f1:10.5f}  {f2:10.5f}  {f3:10.5f}")>> IN
  Sec(<<L(" ==================================================="), L("                   Born Effective Charges"), L("                   ----------------------")>>
      \o FlattenSeq([k \in 1..Len(al) |-> row(k)]) \o <<L(" ===================================================")>>,
      <<Add(Pop, <<"born">>, Map([k \in 1..Len(al) |-> <<key(k), Mat(at(k), 3, 3)>>]))>>)
OrbName == <<"S", "Px", "Py", "Pz", "Dzz", "Dxx-yy", "Dxz", "Fzzz", "Fz(xx-yy)", "Fxyz">>
\* p: atom form, atoms, orbitals of each, with the total of the projection
OrbPop(p, r) ==
  LET al == Atoms(p[1], p[2]) m == p[3]
      orb(k, j) == OrbName[((k * 3 + j) % 10) + 1]
      at(k, j) == r + 2 + (k - 1) * m + j
      z == r + 3 + Len(al) * m + 1
      vals == [k \in 1..Len(al) |-> <<al[k], Map([j \in 1..m |-> <<orb(k, j), F(at(k, j), 1)>>])>>] IN
  Sec(<<L("            Orbital Populations"), L("     Ion    Atom   Orbital             Charge"), L("  -------------------------------------------")>>
      \o FlattenSeq([k \in 1..Len(al) |-> [j \in 1..m |-> T("      {0:<5} {1:<5d}  {2:<12}      {f1:11.3f|0|9}", al[k] \o <<orb(k, j)>>)]])
      \o <<L("  -------------------------------------------"), R("                           Total:   {f1:11.3f|0|999}"), L("  -------------------------------------------")>>
      \o (IF p[4] THEN <<R("The total projected population is {f1:8.3f|0|999}{f2:8.3f|0|999}")>> ELSE <<>>),
      <<IF p[4] THEN Pinned(Set(Pop, <<"orbital_popn">>, Map(vals \o << <<"total", F(z, 1)>>, <<"total_projected", Vec(z + 2, 2)>> >>)),
                            "total-projected", Map(vals \o << <<"total", F(z, 1)>> >>))
        ELSE Set(Pop, <<"orbital_popn">>, Map(vals \o << <<"total", F(z, 1)>> >>))>>)
\* p: atom form, bonds, with spin
Bonds(p, r) ==
  LET al == Atoms(p[1], p[2] + 1)
      at(k) == r + 1 + k
      row(k) == T("             {0:>3} {1:d} -- {2:>3} {3:d}            {f1:10.2f}" \o (IF p[3] THEN "{f2:14.2f}" ELSE "") \o "     {f3:10.5f|0.5|9}", al[k] \o al[k + 1]) IN
  Sec(<<IF p[3] THEN L("                 Bond                   Population        Spin       Length (A)")
        ELSE L("                 Bond                   Population      Length (A)"),
        L("======================================================================")>>
      \o [k \in 1..p[2] |-> row(k)] \o <<L("======================================================================")>>,
      <<Set(Pop, <<"bonds">>, Map([k \in 1..p[2] |-> << <<al[k], al[k + 1]>>,
            IF p[3] THEN [population |-> F(at(k), 1), spin |-> F(at(k), 2), length |-> F(at(k), 3)]
            ELSE [population |-> F(at(k), 1), length |-> F(at(k), 3)]>>]))>>)
Hirshfeld(p, r) == LET al == Atoms(p[1], p[2]) IN
  Sec(<<L("     Hirshfeld Analysis"), L("     ------------------"), L("Species   Ion     Hirshfeld Charge (e)"), L("======================================")>>
      \o AtomRows("  {0:<5} {1:<5d}                {f1:8.2f|-20|20}", al) \o <<L("======================================")>>,
      <<Set(Pop, <<"hirshfeld">>, Map([k \in 1..Len(al) |-> <<al[k], F(r + 3 + k, 1)>>]))>>)
Elf(n, r) == Sec(<<L("      ELF grid sample"), L("-----------------------")>> \o [k \in 1..n |-> T(" ELF {0:8d} {f1:8.6f|0|1}", <<k>>)] \o <<L("-----------------------")>>,
                 <<Set(On("ELF"), <<"elf">>, [k \in 1..n |-> F(r + 1 + k, 1)])>>)

-----------------------------------------------------------------------------
(* Molecular dynamics and geometry optimisation *)
MdRows == <<R("            x              time :{f1:14.6f|0|999}                   ps     x"), R("            x   Potential Energy:{f1:14.6f|-999|99}                   eV     x"),
            R("            x   Kinetic   Energy:{f1:14.6f|-99|99}                   eV     x"), R("            x   Total     Energy:{f1:14.6f|-999|99}                   eV     x"),
            R("            x           Enthalpy:{f1:14.6f|-999|99}                   eV     x"), R("            x   Hamilt    Energy:{f1:14.6f|-999|99}                   eV     x"),
            R("            x   Spring    Energy:{f1:14.6f|-999|99}                   eV <-PI    x"), R("            x        Temperature:{f1:14.6f|0|2000}                    K     x"),
            R("            x      T/=0 Pressure:{f1:14.6f|-99|99}                  GPa     x")>>
MdKeys == <<"time", "potential_energy", "kinetic_energy", "total_energy", "enthalpy", "hamilt_energy", "spring_energy", "temperature", "t_0_pressure">>
MdN == {{"MD"}, {"MD_SUMMARY"}}
\* p: which of the rows are printed
MdData(p, r) ==
  LET x == "            xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" blank == L("            x                                                            x") IN
  Sec(<<L(x), L("            x                                               MD Data:     x"), blank>> \o [k \in 1..Len(p) |-> MdRows[p[k]]] \o <<blank, L(x)>>,
      [k \in 1..Len(p) |-> IF p[k] = 9 THEN Omitted(Set(MdN, <<MdKeys[9]>>, F(r + 2 + k, 1)), "md-t0-pressure") ELSE Set(MdN, <<MdKeys[p[k]]>>, F(r + 2 + k, 1))])
Geo == On("GEOM_OPT")
FinalN == {{"GEOM_OPT"}, {"FINAL_CONFIG"}}
\* p: minimiser, atom form, atoms, cell and contents are printed
FinalConfig(p, r) ==
  LET al == Atoms(p[2], p[3])
      cell == IF p[4] THEN CellHead \o CellRows ELSE <<>>
      box == IF p[5] THEN <<L("                           -------------------------------"), L("                                     Cell Contents"),
                            L("                           -------------------------------"), E>> \o AtomTable(Fractional, al) ELSE <<>>
      c == r + 4
      b == r + 4 + Len(cell) + 4
      z == r + 4 + Len(cell) + Len(box) + 1
      at == <<"geom_opt", "final_configuration">> IN
  Sec(<<L(" ================================================================================"), T(" {0}: Final Configuration:", <<p[1]>>),
        L(" ================================================================================"), E>> \o cell \o box \o <<E>>
      \o <<T(" {0}: Final Enthalpy     = {f1:.8E|-9999|9} eV", <<p[1]>>)>>,
      <<Set(FinalN, at, Mark), Set(FinalN, at \o <<"final_enthalpy">>, F(z, 1))>>
      \o (IF p[4] THEN <<Set(FinalN, at \o <<"cell">>, CellVal(c + 4))>> ELSE <<>>)
      \o (IF p[5] THEN <<Set(FinalN, at \o <<"atoms">>, IF p[3] = 0 THEN Mark ELSE AtomMap(al, b + 4, V3))>> ELSE <<>>))
\* further summary lines
FinalLine(p, r) ==
  LET at(k) == <<"geom_opt", "final_configuration", k>> IN
  CASE p[2] = "bulk" -> Sec(<<T(" {0}: Final bulk modulus = {f1:13.5f|1|999} GPa", <<p[1]>>)>>, <<Set(FinalN, at("final_bulk_modulus"), F(r, 1))>>)
    [] p[2] = "freq" -> Sec(<<T(" {0}: Final <frequency>  = {f1:13.5f|1|999} cm-1", <<p[1]>>)>>, <<Set(FinalN, at("final_<frequency>"), F(r, 1))>>)
    [] p[2] = "unchanged" -> Sec(<<T(" {0}: Final <frequency>  unchanged from initial value", <<p[1]>>)>>, <<>>)
    [] p[2] = "enthalpy" -> Sec(<<T(" {0}: Final Enthalpy     = {f1:.8E|-9999|9} eV", <<p[1]>>)>>, <<Set(FinalN, at("final_enthalpy"), F(r, 1))>>)
Enthalpy(p, r) == Sec(<<T(" {0}: finished iteration {n:5d} with enthalpy= {f1:15.8E3|-9999|9} eV", <<p>>)>>, <<Def(Geo, <<"geom_opt">>), Add(Geo, <<"enthalpy">>, F(r, 1))>>)
Trial(p, r) == Sec(<<L("--------------------------------------------------------------------------------"),
                     T(" {0}: starting iteration {n:9d} with trial guess (lambda={f1:10.6f|0|9})", <<p>>),
                     L("--------------------------------------------------------------------------------")>>,
                   <<Add(Geo, <<"geom_opt", "trial">>, F(r + 1, 1))>>)
Steps == <<"previous", "trial step", "line step", "quad step">>
MinTable(p, r) ==
  LET n == p[2] bar == T(" +------------+-------------+-------------+-----------------+ <-- min {0}", <<p[1]>>) IN
  Sec(<<bar, T(" |    Step    |   lambda    |   F.delta'  |    enthalpy     | <-- min {0}", <<p[1]>>), bar>>
      \o [k \in 1..n |-> T(" | {1:^10} | {f1:11.6f|0|999} | {f2:11.6f|-999|999} | {f3:15.6f|-9999|9} | <-- min {0}", <<p[1], Steps[k]>>)] \o <<bar>>,
      <<Add(Geo, <<"minimisation">>, IF n = 0 THEN Mark ELSE Map([k \in 1..n |-> <<Steps[k], Map(<< <<"lambda", F(r + 2 + k, 1)>>, <<"fdelta", F(r + 2 + k, 2)>>, <<"enthalpy", F(r + 2 + k, 3)>> >>)>>]))>>)
Quantity == <<"dE/ion", "|F|max", "|dR|max", "Smax">>
QuantityKey == <<"de_ion", "f_max", "dr_max", "smax">>
QuantityUnit == <<"eV", "eV/A", "A", "GPa">>
Convergence(p, r) ==
  LET n == p[2] bar == T(" +-----------+-----------------+-----------------+------------+-----+ <-- {0}", <<p[1]>>) ok(k) == (k + n) % 2 = 0 IN
  Sec(<<bar, T(" | Parameter |      value      |    tolerance    |    units   | OK? | <-- {0}", <<p[1]>>), bar>>
      \o [k \in 1..n |-> T(" | {1:^9} | {f1:15.6E3} | {f2:15.6E3|0|9} | {2:>10} | {3:<3} | <-- {0}", <<p[1], Quantity[k], QuantityUnit[k], IF ok(k) THEN "Yes" ELSE "No">>)]
      \o <<bar>>,
      <<Add(Geo, <<"minimisation">>, IF n = 0 THEN Mark
            ELSE Map([k \in 1..n |-> <<QuantityKey[k], [value |-> F(r + 2 + k, 1), tolerance |-> F(r + 2 + k, 2), converged |-> ok(k)]>>]))>>)
\* delocalised internals
Constraint(k) == <<"Bond", "Angle", "Torsion">>[((k - 1) % 3) + 1]
Internal(n, r) ==
  LET m(k) == ((k - 1) % 3) + 2
      col(c, j) == c \o ToString(j)
      ref(k, j) == "  " \o ToString(10 * k + j) \o " ({i" \o col("b", j) \o ":2d|-1|1}{i" \o col("c", j) \o ":2d|-1|1}{i" \o col("d", j) \o ":2d|-1|1})"
      refs(k) == FoldSeq(LAMBDA j, s : s \o ref(k, j), "", [j \in 1..m(k) |-> j])
      met(k) == k % 2 = 1
      atoms(k) == Map([j \in 1..m(k) |-> <<10 * k + j, <<I(r + 2 + k, col("b", j)), I(r + 2 + k, col("c", j)), I(r + 2 + k, col("d", j))>> >>]) IN
  Sec(<<L("  INTERNAL CONSTRAINTS"), L(" #  Type     Target    Actual           Definition"), E>>
      \o [k \in 1..n |-> T((IF met(k) THEN "  {0:d} {1:<7}{f1:9.3f|0|180} Satisfied " ELSE "  {0:d} {1:<7}{f1:9.3f|0|180} {f2:9.3f|0|180} ") \o refs(k), <<k, Constraint(k)>>)]
      \o <<E>>,
      <<Set(Geo, <<"internal_constraints">>, [k \in 1..n |-> [type |-> Constraint(k), target |-> IF met(k) THEN None ELSE F(r + 2 + k, 1),
            current |-> IF met(k) THEN F(r + 2 + k, 1) ELSE F(r + 2 + k, 2), satisfied |-> met(k), constraints |-> atoms(k)]])>>)
Deloc(n, r) ==
  LET z == r + n + 2 at(k) == <<"delocalised_internal", k>> IN
  Sec(<<L("Message: Generating delocalized internals")>> \o [k \in 1..n |-> T(" constraint # {0:5d} is a primitive #{i1:6d|1|999}", <<k>>)] \o <<E>>
      \o <<R("Total number of primitive bonds:     {i1:10d|0|9999}"), R("Total number of primitive angles:    {i1:10d|0|9999}"),
           R("Total number of primitive dihedrals: {i1:10d|0|9999}"), E, R("Total number of primitive internals: {i1:10d|0|9999}"), E,
           L("Message: Generation of delocalized internals is successful")>>,
      <<Set(Geo, at("constraint_mapping"), Map([k \in 1..n |-> <<k, I(r + k, 1)>>])), Set(Geo, at("num_bonds"), I(z, 1)), Set(Geo, at("num_angles"), I(z + 1, 1)),
        Set(Geo, at("num_dihedrals"), I(z + 2, 1)), Set(Geo, at("num_internals"), I(z + 4, 1))>>)
Active(r) == LET at(k) == <<"delocalised_internal", k>> IN
  Sec(<<R(" The size of active space is :{i1:6d|1|999}"), R(" There are : {i1:6d|1|999}  degrees of freedom"), R(" There are : {i1:6d|1|999}  primitive internals"), E>>,
      <<Set(Geo, at("active_space_size"), I(r, 1)), Set(Geo, at("num_dof"), I(r + 1, 1)), Set(Geo, at("num_primitive_internals"), I(r + 2, 1))>>)

-----------------------------------------------------------------------------
(* Spectra, dipoles, magnetic resonance *)
Excitation(k) == <<"spurious", "Singlet", "Triplet">>[((k - 1) % 3) + 1]
Tddft(n, r) == LET bar == L("  + ================================================================= +TDDFT") e == L("  +                                                                   +TDDFT") IN
  Sec(<<bar, L("  +                     TDDFT excitation energies                     +TDDFT"), L("  +                     -------------------------                     +TDDFT"),
        L("  +   State number         Energy in   eV     Estimated error         +TDDFT"), bar, e>>
      \o [k \in 1..n |-> T("  +  {0:8d} {f1:21.15f|-9|20}{f2:19.10E}     {1:<9}    +TDDFT", <<k, Excitation(k)>>)]
      \o <<e, bar, R("  +  TDDFT calculation time: {x:10.2f|0|999}                               +TDDFT"), bar>>,
      <<Set(On("TDDFT"), <<"tddft">>, [k \in 1..n |-> [energy |-> F(r + 5 + k, 1), error |-> F(r + 5 + k, 2), type |-> Excitation(k)]])>>)
\* p: k-points, bands of each, title
BandTitle == <<"  +     Band Structure Calculation: Progress report on root process   +", "  +          B A N D   S T R U C T U R E   C A L C U L A T I O N       +">>
Bands(p, r) ==
  LET nk == p[1] nb == p[2] e == L("  +                                                                   +")
      at(k) == r + 12 + (k - 1) * (4 + nb) + 1
      one == <<L("  + ----------------------------------------------------------------- +"),
               R("  +  Spin={is:1d|1|2} kpt={n:5d} ({fx:10.6f}{fy:10.6f}{fz:10.6f}) kpt-group={ig:3d|1|20}  +"),
               L("  + ----------------------------------------------------------------- +"), e>>
             \o [b \in 1..nb |-> T("  +  {0:10d} {f1:15.6f|-99|99}                                       +", <<b>>)] IN
  Sec(<<L("  + ================================================================= +"), e, L(BandTitle[p[3]]), e,
        R("  +   There are {n:4d} BS k-points. Root process contains {n:4d} of them. +"), R("  +   Spin= 1 of  1, K-point={n:4d} of {n:4d} completed, Time: {x:8.2f|0|99}s. +"),
        L("  +   Finished BS calculation on root process (waiting for others).   +"), e, L("  + ================================================================= +"),
        L("  +                       Electronic energies                         +"), L("  +   Band number   Energy in eV                                      +"), e>>
      \o FlattenSeq([k \in 1..nk |-> one]) \o <<L("  =====================================================================")>>,
      <<Set(On("BS"), <<"bs">>, [k \in 1..nk |-> [spin |-> I(at(k), "s"), kx |-> F(at(k), "x"), ky |-> F(at(k), "y"), kz |-> F(at(k), "z"), kpgrp |-> I(at(k), "g"),
            band |-> [b \in 1..nb |-> b], energy |-> [b \in 1..nb |-> F(at(k) + 2 + b, 1)]]])>>)
Dipole(r) == LET e == L("  +                                                                   +") IN
  Sec(<<L("  ====================================================================="), e, L("  +   D I P O L E   O F   M O L E C U L E   I N   S U P E R C E L L   +"),
        L("  +      Cite: S. J. Clark, et al. Europhys Lett 44, 578 (1998)       +"), e, L("  +      WARNING: This is only correct for isolated molecules         +"), e,
        R("  +    Total  ionic  charge in supercell: {f1:12.4f|0|99} electrons      +"), R("  +    Total valence charge in supercell: {f1:12.4f|0|99} electrons      +"), e,
        L("  +   Centre of electronic charge for system:                         +"), R("  +  {f1:12.4f}{f2:12.4f}{f3:12.4f}       ANG                   +"),
        L("  +   Centre of positive ionic charges:                               +"), R("  +  {f1:12.4f}{f2:12.4f}{f3:12.4f}       ANG                   +"), e,
        R("  +  Magnitude of Dipole ={f1:10.5f|0|99}  DEBYE                           +"), R("  +  Direction of Dipole = {f1:12.6f}{f2:12.6f}{f3:12.6f}       +"), e,
        L("  =====================================================================")>>,
      <<Set(On("DIPOLE"), <<"molecular_dipole">>, [total_ionic |-> F(r + 7, 1), total_valence |-> F(r + 8, 1), centre_electronic |-> V3(r + 11), centre_positive |-> V3(r + 13),
            dipole_magnitude |-> F(r + 15, 1), dipole_direction |-> V3(r + 16)])>>)
MagTitle == <<"                      Chemical Shielding Tensor                   ", "                Chemical Shielding and Electric Field Gradient Tensors       ",
              "                Electric Field Gradient Tensor               ", "                            Isotropic J-coupling                                ",
              "                            Anisotropic J-coupling                              ", "                        Hyperfine Tensor                    ">>
MagTask == <<"Chemical Shielding", "Chemical Shielding and Electric Field Gradient", "Electric Field Gradient", "(An)Isotropic J-coupling", "(An)Isotropic J-coupling", "Hyperfine">>
Couplings == <<"fermi_contact", "spin_dipolar", "paramagnetic", "diamagnetic", "total">>
MagCols == << <<"cs_iso", "cs_aniso", "asym">>, <<"cs_iso", "cs_aniso", "asym", "cq", "eta">>, <<"cq", "asym">>, Couplings, Couplings, <<"hf_iso">> >>
\* columns of an atom; na: no asymmetry
MagForm(w, na) ==
  LET asym(c) == IF na THEN "     N/A " ELSE "{f" \o c \o ":9.2f|0|1}" IN
  CASE w = 1 -> "{f1:12.2f|-99|999}{f2:11.2f|-99|999}   " \o asym("3") \o "  "
    [] w = 2 -> "{f1:12.2f|-99|999}{f2:11.2f|-99|999}   " \o asym("3") \o "{f4:12.3E}{f5:7.2f|0|1} "
    [] w = 3 -> "{f1:18.3E}   " \o asym("2") \o "  "
    [] w \in 4..5 -> "{f1:10.2f|-99|999}{f2:12.2f|-99|99}{f3:12.2f|-99|99}{f4:11.2f|-99|99}{f5:12.2f|-999|999} "
    [] w = 6 -> "{f1:27.3E|-9999|9999}        "
\* p: which table, atom form, atoms
Magres(p, r) ==
  LET w == p[1] al == Atoms(p[2], p[3]) na(k) == k % 2 = 0 cols == MagCols[w]
      extra == IF w \in 4..5 THEN <<L("  |** C                 1     --.--       --.--       --.--      --.--       --.-- |")>> ELSE <<>>
      z == r + 4 + Len(extra)
      val(k) == Map([c \in 1..Len(cols) |-> <<cols[c], IF cols[c] = "asym" /\ na(k) THEN None ELSE F(z + k, c)>>]) IN
  Sec(<<L("  ===================================================================="), L("  |" \o MagTitle[w] \o "|"), L("  |------------------------------------------------------------------|"),
        L("  |     Nucleus                            tensor                    |"), L("  |  Species            Ion            values                        |")>> \o extra
      \o [k \in 1..Len(al) |-> T("  |    {0:<12}{1:4d}  " \o MagForm(w, na(k)) \o "|", al[k])]
      \o (IF w \in 4..5 THEN <<L("  |                                                                                |"),
                               L("  |** Signifies Perturbing Nucleus A of coupling J_AB                              |")>> ELSE <<>>)
      \o <<L("  ====================================================================")>>,
      <<Add(On("CHEM_SHIELDING"), <<"magres">>, Map(<< <<"task", MagTask[w]>> >> \o [k \in 1..Len(al) |-> <<al[k], val(k)>>]))>>)

-----------------------------------------------------------------------------
(* Elastic constants, polarisation, delta SCF *)
Ela == On("ELASTIC")
Rule == " ==============================================================================="
Dash == " -------------------------------------------------------------------------------"
Six(spec) == Cols(6, <<"f", spec>>)
Elastic(w, r) ==
  CASE w = "constants" -> Sec(<<L(Rule), L("                          Elastic Constants Tensor (GPa)"), L(Dash)>> \o Copies(6, R(Six("13.6f|-99|999"))) \o <<L(Rule)>>,
                              <<Set(Ela, <<"elastic", "elastic_constants">>, Mat(r + 3, 6, 6))>>)
    [] w = "compliance" -> Sec(<<L(Rule), L("                           Compliance Matrix (GPa^-1)"), L(Dash)>> \o Copies(6, R(" " \o Six("13.9f|-1|1"))) \o <<L(Rule)>>,
                               <<Set(Ela, <<"elastic", "compliance_matrix">>, Mat(r + 3, 6, 6))>>)
    [] OTHER -> Sec(<<L(w \o " Contribution ::")>> \o Copies(6, R(Six("17.8f|-9|9"))) \o <<E>>, <<Set(Ela, <<"elastic", w \o " Contribution">>, Mat(r + 1, 6, 6))>>)
ElasticProps(r) == LET at(k) == <<"elastic", k>> three == "{f1:15.6f|0|999}{f2:15.6f|0|999}{f3:15.6f|0|999}     " IN
  Sec(<<L(Rule), L("                               Elastic Properties"), L(Dash), L("                            x              y              z"), L(Dash),
        R("  Young's Modulus ::" \o three \o "(GPa)"), E, L(Dash),
        L("                        xy        xz        yx        yz        zx        zy"), L(Dash), R("  Poisson Ratios  ::" \o Six("10.6f|-1|1")), E, L(Dash),
        L("                          Voigt          Reuss          Hill"), L(Dash), R("   Bulk Modulus   ::" \o three \o "(GPa)"),
        R("  Shear Modulus   ::" \o three \o "(GPa)"), E, L(Dash), L("                                 Speed of Sound"), L(Dash),
        L("                            x              y              z"), L(Dash), R("                  x " \o three \o "(A/ps)"),
        R("  (Anisotropic)   y " \o three \o "(A/ps)"), R("                  z " \o three \o "(A/ps)"), E,
        L(" Assuming Isotropic material"), R("  Longitudinal waves ::{f1:14.6f|0|999}   (A/ps)"), R("   Transverse waves  ::{f1:14.6f|0|999}   (A/ps)"), L(Rule)>>,
      <<Set(Ela, at("young_s_modulus"), V3(r + 5)), Set(Ela, at("poisson_ratios"), V6(r + 10)), Set(Ela, at("bulk_modulus"), V3(r + 15)), Set(Ela, at("shear_modulus"), V3(r + 16)),
        Set(Ela, at("speed_of_sound"), Mat(r + 23, 3, 3)), Set(Ela, at("longitudinal_waves"), F(r + 28, 1)), Set(Ela, at("transverse_waves"), F(r + 29, 1))>>)
Pol == On("POLARISATION")
Rule2 == L("=====================================================================================")
Directions == << <<"1.0000", "0.0000", "0.0000">>, <<"0.0000", "1.0000", "0.0000">>, <<"0.0000", "0.0000", "1.0000">> >>
Parts == <<"Ionic", "Elec ", "Total">>
PartKey == <<"ionic", "elec", "total">>
Three(read) == IF read THEN "{f1:12.6f}{f2:12.6f}{f3:12.6f}" ELSE "{x:12.6f}{x:12.6f}{x:12.6f}"
Cartesian(unit, read) == [k \in 1..3 |-> R(" " \o Parts[k] \o " Polarisation (Cartesian Basis):" \o Three(read) \o " (" \o unit \o ")")]
\* the same quantity printed in several units is kept in the last
Berry(r) == LET at(k) == <<"berry_phase", k>> c == r + 13 IN
  Sec(<<Rule2, L(" Polarisation (C/m^2) in Recip Lattice Basis defined on range [-Quantum/2:Quantum/2]"),
        L("              Direction                   Electronic   Ionic    Total    (Quantum)"), Rule2>>
      \o [k \in 1..3 |-> T(" G_{0}:  (  {1},  {2},  {3}   )  {f1:10.4f}{f2:10.4f}{f3:10.4f} ({f4:10.4f|0|9} )", <<ToString(k)>> \o Directions[k])]
      \o <<Rule2, E, Rule2>> \o Cartesian("e/bohr^2", FALSE) \o <<Rule2, E, Rule2>> \o Cartesian("C/m^2", TRUE) \o <<Rule2>>,
      <<Set(Pol, at("polarisation"), Map([k \in 1..3 |-> <<[j \in 1..3 |-> Dec(Directions[k][j])],
            [elec |-> F(r + 3 + k, 1), ionic |-> F(r + 3 + k, 2), total |-> F(r + 3 + k, 3), quantum |-> F(r + 3 + k, 4), units |-> "C/m^2"]>>]))>>
      \o [k \in 1..3 |-> Set(Pol, at(PartKey[k]), [units |-> "C/m^2", val |-> V3(c + 2 + k)])])
Lattice == <<"Electronic", "Ionic", "Total">>
LatticeTable(title, read) == <<Rule2, L(title), Rule2>> \o [k \in 1..3 |-> R(Lattice[k] \o " polarisation   " \o Three(read))] \o <<Rule2>>
BerryVerbose(n, r) ==
  LET at(k) == <<"berry_phase", k>>
      b == r + 7 + n                           \* row of the first lattice table
      table(z) == [k \in 1..3 |-> <<Lattice[k], V3(z + 2 + k)>>]
      ion(k) == <<((k - 1) \div 2) + 1, ((k - 1) % 2) + 1>> IN
  Sec(<<Rule2, L("             Ionic contribution to polarisation (phase) [-1:1]"), Rule2,
        L("ni nsp  Zion     frac_a1     frac_a2     frac_a3      pol_G1      pol_G2     pol_G3")>>
      \o [k \in 1..n |-> T("  {0:d} {1:d} {x:6.2f|1|40}" \o Cols(6, <<"f", "12.6f|-1|1">>), <<ion(k)[2], ion(k)[1]>>)]
      \o <<R(" Total ionic polarisation (phase [-1:1])        {f1:12.6f|-1|1}{f2:12.6f|-1|1}{f3:12.6f|-1|1}"), Rule2, E>>
      \o LatticeTable("             Polarisation (phase) [-1:1] in Recip Lattice Basis (G_1, G_2, G_3)", TRUE) \o <<E>>
      \o LatticeTable("             Polarisation (e bohr)       in Recip Lattice Basis (G_1, G_2, G_3)", TRUE) \o <<E>>
      \o LatticeTable("      Volume Polarisation (e /bohr^2)    in Recip Lattice Basis (G_1, G_2, G_3)", FALSE) \o <<E>>
      \o LatticeTable("      Volume Polarisation (C/m^2)        in Recip Lattice Basis (G_1, G_2, G_3)", TRUE),
      <<Set(Pol, at("ionic_contribution_to_polarisation"),
            [units |-> "phase", total |-> V3(r + 4 + n), ions |-> IF n = 0 THEN Mark ELSE Map([k \in 1..n |-> <<ion(k), [coords |-> VecFrom(r + 3 + k, 1, 3), polarisation |-> VecFrom(r + 3 + k, 4, 6)]>>])]),
        Set(Pol, at("polarisation"), [phase |-> Map(table(b)), units |-> "e bohr", val |-> Map(table(b + 8))]),
        Set(Pol, at("volume_polarisation"), Map(<< <<"units", "C/m^2">> >> \o table(b + 24)))>>)
\* p: states, populations are printed, files are written
DeltaScf(p, r) ==
  LET n == p[1] z == r + 2 + 3 * n w == z + (IF p[2] THEN n ELSE 0) spin(k) == (k % 2) + 1 band(k) == 5 + k \div 2 IN
  Sec(<<L("               Calculating MODOS weights"), L(" +-------------------INPUT PARAMETERS-------------------+"), R("Taking band from model   {s1}.check")>>
      \o FlattenSeq([k \in 1..n |-> <<T("  MODOS state               {0:d}", <<k>>), T("  MODOS band  nr.           {0:d}", <<band(k)>>), T("  MODOS band has spin       {0:d}", <<spin(k)>>)>>])
      \o (IF p[2] THEN [k \in 1..n |-> T("|DeltaSCF| Population of state: {0:5d} {1:5d} {f1:10.6f|0|1}", <<band(k), spin(k)>>)] ELSE <<>>)
      \o (IF p[3] THEN [k \in 1..n |-> T(" Writing file   {s1}.modos_state_{0:d}_{1:d}", <<band(k), spin(k)>>)] ELSE <<>>) \o <<E>>,
      <<Set(On("DELTA_SCF"), <<"delta_scf">>, [file |-> Cat(<<S(r + 2, 1), ".check">>),
          states |-> [k \in 1..n |-> Map(<< <<"band", band(k)>>, <<"spin", spin(k)>> >> \o (IF p[2] THEN << <<"pop", F(z + k, 1)>> >> ELSE <<>>)
                                         \o (IF p[3] THEN << <<"file", Cat(<<S(w + k, 1), ".modos_state_" \o ToString(band(k)) \o "_" \o ToString(spin(k))>>)>> >> ELSE <<>>))]])>>)
=============================================================================
