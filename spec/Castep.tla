-------------------------------- MODULE Castep --------------------------------
(* A .castep file: runs of sections printed in any order, some of them inside  *)
(* molecular-dynamics steps and geometry-optimisation iterations, and what a   *)
(* reader asking for some categories of data gets from it.                     *)
(*                                                                             *)
(* Every view is a reader with its own set of categories; the views are fed    *)
(* the same file.  A reader keeps the finished runs, the run it is in, and,    *)
(* inside a step or iteration, that step's own mapping.                        *)
EXTENDS CastepSections

CONSTANTS Kinds,      \* the kinds of section printed
          Size,       \* "one", "few", "wide" or "long": how many forms of each kind
          ViewSet,    \* the readers: sets of categories
          WithPresets,\* the documented presets as readers too
          Length,     \* sections in the file
          Runs,       \* runs in the file
          Iterations, \* steps or iterations
          Gaps,       \* between sections: blank lines or unrelated text
          Faults,     \* the file is cut short inside a delimited section or an unfinished step; only such files are emitted
          Again       \* the file repeats its first kind of section, in runs and steps, and prints nothing else

VARIABLES rows, ctx, views, left, last, status
vars == <<rows, ctx, views, left, last, status>>

Categories == {"BS", "CELL", "CHEM_SHIELDING", "DELTA_SCF", "DIPOLE", "ELASTIC", "ELF", "FINAL_CONFIG", "FORCE", "GEOM_OPT", "MD", "MD_SUMMARY",
               "OPTICS", "PARAMETERS", "PHONON", "POLARISATION", "POPN_ANALYSIS", "POSITION", "PSPOT", "SCF", "SOLVATION", "SPECIES_PROPS", "SPIN",
               "STRESS", "SYMMETRIES", "SYS_INFO", "TDDFT", "TEST_EXTRA_DATA", "THERMODYNAMICS", "TSS"}
\* the documented presets; a caller who asks for nothing in particular gets "HIGH"
Low == {"BS", "CELL", "CHEM_SHIELDING", "DIPOLE", "ELASTIC", "ELF", "FINAL_CONFIG", "FORCE", "MD_SUMMARY", "OPTICS", "POPN_ANALYSIS", "POSITION",
        "POLARISATION", "SOLVATION", "SPECIES_PROPS", "SPIN", "STRESS", "TDDFT", "THERMODYNAMICS", "TSS", "DELTA_SCF"}
Medium == Low \cup {"PARAMETERS", "GEOM_OPT", "MD", "PHONON"}
High == Medium \cup {"PSPOT", "SYMMETRIES", "SYS_INFO"}
Presets == [NONE |-> {}, LOW |-> Low, MEDIUM |-> Medium, HIGH |-> High, FULL |-> High \cup {"SCF"}, ALL |-> High \cup {"SCF"},
            TESTING |-> {"BS", "CELL", "CHEM_SHIELDING", "DIPOLE", "ELASTIC", "ELF", "FORCE", "GEOM_OPT", "MD", "OPTICS", "PHONON", "POPN_ANALYSIS", "POSITION",
                         "PSPOT", "SOLVATION", "SPECIES_PROPS", "STRESS", "TDDFT", "TEST_EXTRA_DATA", "THERMODYNAMICS", "TSS"}]
Default == "HIGH"
Minimisers == {"BFGS", "LBFGS", "FIRE", "TPSD", "DMD", "DI"}

-----------------------------------------------------------------------------
(* The kinds of section, and the forms in which each is printed *)
Section(k, p, r) ==
  CASE k = "build" -> Build(p, r) [] k = "started" -> Started(r) [] k = "final" -> Final(p, r) [] k = "parallel" -> Parallel(r)
    [] k = "continuation" -> Continuation(r) [] k = "warnbox" -> WarnBox(p, r) [] k = "warn" -> Warn(p, r) [] k = "memory" -> Memory(p, r)
    [] k = "title" -> Title(r) [] k = "options" -> Options(p, r) [] k = "pair" -> PairParams(p, r) [] k = "dftd" -> Dftd(p, r)
    [] k = "spins" -> Spins(p, r) [] k = "targetstress" -> TargetStress(r) [] k = "kpoints" -> KPoints(p, r) [] k = "klist" -> KList(p, r)
    [] k = "efield" -> Efield(r) [] k = "quantisation" -> Quantisation(r) [] k = "psenergy" -> PsEnergy(p, r) [] k = "mass" -> Mass(p, r)
    [] k = "quadrupole" -> Quadrupole(p, r) [] k = "pots" -> Pots(p, r) [] k = "report" -> Report(p, r) [] k = "pspdebug" -> PspDebug(p, r)
    [] k = "scf" -> ScfSec(p, r) [] k = "energies" -> Energies(p, r) [] k = "solve" -> SolvE(r) [] k = "dedlne" -> DeDlnE(r) [] k = "bsc" -> Bsc(p, r)
    [] k = "linemin" -> LineMin(p, r) [] k = "occupancies" -> Occupancies(p, r) [] k = "spindensity" -> SpinDensity(p, r) [] k = "autosolv" -> AutoSolv(r)
    [] k = "cell" -> UnitCell(r) [] k = "supercell" -> Supercell(r) [] k = "symmetry" -> Symmetry(p, r) [] k = "positions" -> Positions(p, r)
    [] k = "velocities" -> Velocities(p, r) [] k = "labelled" -> Labelled(p, r) [] k = "mixture" -> Mixture(p, r) [] k = "states" -> States(p, r)
    [] k = "forces" -> Forces(p, r) [] k = "comforce" -> ComForce(r) [] k = "stress" -> Stress(p, r) [] k = "phonons" -> Phonons(p, r)
    [] k = "phsym" -> PhSym(p, r) [] k = "dynmat" -> DynMat(p, r) [] k = "raman" -> Raman(p, r) [] k = "permittivity" -> Permittivity(p, r)
    [] k = "polarisability" -> Polarisability(p, r) [] k = "nlo" -> Nlo(r) [] k = "adp" -> Adp(p, r) [] k = "thermo" -> Thermo(p, r)
    [] k = "mulliken" -> Mulliken(p, r) [] k = "born" -> Born(p, r) [] k = "orbpop" -> OrbPop(p, r) [] k = "bonds" -> Bonds(p, r)
    [] k = "hirshfeld" -> Hirshfeld(p, r) [] k = "elf" -> Elf(p, r) [] k = "mddata" -> MdData(p, r) [] k = "finalconfig" -> FinalConfig(p, r)
    [] k = "finalline" -> FinalLine(p, r) [] k = "enthalpy" -> Enthalpy(p, r) [] k = "trial" -> Trial(p, r) [] k = "mintable" -> MinTable(p, r)
    [] k = "convergence" -> Convergence(p, r) [] k = "internal" -> Internal(p, r) [] k = "deloc" -> Deloc(p, r) [] k = "active" -> Active(r)
    [] k = "tddft" -> Tddft(p, r) [] k = "bands" -> Bands(p, r) [] k = "dipole" -> Dipole(r) [] k = "magres" -> Magres(p, r)
    [] k = "elastic" -> Elastic(p, r) [] k = "elprops" -> ElasticProps(r) [] k = "berry" -> Berry(r) [] k = "berryverbose" -> BerryVerbose(p, r)
    [] k = "deltascf" -> DeltaScf(p, r)

\* the number of forms grows from one, to those of the usual shapes, to a wide range of sizes and combinations
Pick(one, few, wide) == CASE Size = "one" -> {one} [] Size = "few" -> few [] Size = "wide" -> wide [] Size = "long" -> few
Long(some, long) == IF Size = "long" THEN long ELSE some
Count(lo, usual, hi) == Pick(usual, {lo, usual}, lo..hi)
Counts(lo, usual, hi) == Long(Count(lo, usual, hi), {hi + 1, 3 * hi, 41})
AtomTables(hi) == Long(Pick(<<"tag", 2>>, {<<"plain", 2>>, <<"mixed", 4>>}, Forms \X (0..hi)), Forms \X {23, 130})
Form(k) ==
  CASE k = "build" -> Count(0, 2, 4)
    [] k = "final" -> Pick(<<4, "blank">>, {<<1, "blank">>, <<5, "blank">>}, {<<n, "blank">> : n \in 1..5})
    [] k = "warnbox" -> Count(1, 2, 5)
    [] k = "warn" -> Long(Pick(<<"upper", 1, TRUE>>, {<<"upper", 0, TRUE>>, <<"lower", 2, TRUE>>, <<"prefix", 0, FALSE>>}, {"upper", "lower", "prefix"} \X (0..4) \X BOOLEAN), {<<"lower", 12, TRUE>>})
    [] k = "memory" -> Pick(<<2, FALSE>>, {<<3, FALSE>>, <<1, TRUE>>}, (0..5) \X BOOLEAN)
    [] k = "options" -> Pick(<<2, 2, 1, FALSE>>, {<<1, 4, 0, FALSE>>, <<3, 2, 2, TRUE>>}, (1..4) \X (1..8) \X (0..2) \X BOOLEAN)
    [] k = "pair" -> Long(Pick(<<"", 2, 2, 0, 0, "">>, {<<"", 3, 2, 0, 1, "units">>, <<"DZ", 1, 1, 2, 0, "again">>, <<"W2", 4, 2, 0, 0, "other">>, <<"", 2, 1, 2, 1, "triplet">>, <<"DZ", 0, 1, 3, 0, "triplets">>},
                          {"", "DZ", "W2"} \X (0..5) \X {1, 4} \X {0, 3} \X {0, 2} \X {"", "again", "other", "units", "triplet", "triplets"}), {<<"DZ", 4, 3, 3, 2, "again">>})
    [] k = "dftd" -> Pick(<<"G06", 2>>, {<<"G06", 1>>, <<"XDM", 0>>}, {"G06", "TS", "D4", "XDM"} \X (0..4))
    [] k = "spins" -> AtomTables(8)
    [] k = "kpoints" -> Pick("grid", {"grid", "count"}, {"grid", "count"})
    [] k = "klist" -> Counts(1, 2, 12)
    [] k = "psenergy" -> Pick(<<1, 1>>, {<<0, 2>>, <<2, 1>>}, (0..2) \X (1..4))
    [] k = "mass" -> Count(1, 3, 4)
    [] k = "quadrupole" -> Pick(<<2, "blank">>, {<<2, "blank">>, <<3, "x">>}, (1..4) \X {"blank", "x"})
    [] k = "pots" -> Count(1, 3, 4)
    [] k = "report" -> Long(Pick(<<2, 2, FALSE, TRUE, "PBE", "Koelling-Harmon", "">>, {<<2, 3, TRUE, FALSE, "LDA", "Schroedinger", "">>, <<1, 1, FALSE, TRUE, "PBE", "Koelling-Harmon", "">>},
                            (1..6) \X (1..5) \X BOOLEAN \X BOOLEAN \X {"LDA", "PBE"} \X {"Koelling-Harmon", "ZORA"} \X {"", "small", "string"}), {<<6, 15, TRUE, TRUE, "LDA", "Koelling-Harmon", "">>})
    [] k = "pspdebug" -> Counts(1, 3, 6)
    [] k = "scf" -> Long(Pick(<<FALSE, 2, "">>, {<<FALSE, 2, "">>, <<TRUE, 1, "">>, <<FALSE, 2, "norm">>}, BOOLEAN \X (0..6) \X {"", "unmixed", "norm", "constraint", "dipole"}), {<<FALSE, 120, "">>, <<TRUE, 31, "norm">>})
    [] k = "energies" -> Pick(<<1, 2, 3>>, {<<1>>, <<1, 2, 3, 4, 5, 6>>}, SeqsOf(1..7, 1, 2) \cup {<<1, 2, 3, 4, 5, 6, 7>>})
    [] k = "bsc" -> Pick(<<2, 1, "warn">>, {<<1, 1, "">>, <<3, 2, "">>, <<2, 0, "warn">>, <<2, 1, "spin">>}, (1..5) \X (0..3) \X {"", "warn", "spin"})
    [] k = "linemin" -> Count(1, 2, 5)
    [] k = "occupancies" -> Counts(1, 2, 12)
    [] k = "spindensity" -> Pick("scalar", {"scalar", "vector"}, {"scalar", "vector"})
    [] k = "symmetry" -> Long(Pick(<<1, 1, 0, FALSE, TRUE>>, {<<0, 1, 0, TRUE, FALSE>>, <<2, 2, 1, FALSE, TRUE>>}, (0..4) \X (1..3) \X (0..3) \X BOOLEAN \X BOOLEAN), {<<48, 4, 15, TRUE, TRUE>>})
    [] k \in {"positions", "velocities"} -> AtomTables(10)
    [] k = "labelled" -> Counts(1, 3, 9)
    [] k = "mixture" -> Long(Pick(<<2, 2>>, {<<1, 2>>, <<3, 1>>}, (1..5) \X (1..3)), {<<17, 3>>})
    [] k = "states" -> Long(Pick(<<"reactant", "tag", 2>>, {<<"reactant", "plain", 2>>, <<"product", "mixed", 3>>}, {"reactant", "product"} \X Forms \X (1..8)), {<<"product", "mixed", 40>>})
    [] k = "forces" -> Long(Pick(<<1, "tag", 2, "">>, {<<1, "plain", 2, "cons">>, <<2, "mixed", 3, "">>}, (1..Len(ForceKey)) \X Forms \X {0, 1, 2, 9} \X {"", "cons", "mixed"}), {<<w, "mixed", 120, "">> : w \in 1..4})
    [] k = "stress" -> Pick(1, {1, 2}, 1..3)
    [] k = "phonons" -> Long(Pick(<<1, 2, 2, FALSE, 0>>, {<<2, 3, 3, TRUE, 1>>, <<1, 1, 2, FALSE, 2>>}, (1..3) \X (1..5) \X {0, 1, 3, 12} \X BOOLEAN \X (0..2)), {<<12, 4, 45, FALSE, 2>>, <<1, 3, 130, TRUE, 0>>})
    [] k = "phsym" -> Pick(<<"int", 3, "rotations">>, {<<"int", 3, "matrix">>, <<"dec", 2, "matrix">>}, {"int", "dec"} \X (1..6) \X {"matrix", "two words"})
    [] k = "dynmat" -> Counts(1, 1, 4)
    [] k = "raman" -> Counts(1, 2, 7)
    [] k \in {"permittivity", "polarisability"} -> Pick(TRUE, BOOLEAN, BOOLEAN)
    [] k = "adp" -> Long(Pick(<<2, "tag", 2>>, {<<1, "plain", 2>>, <<3, "tag", 3>>}, (1..3) \X {"plain", "tag"} \X (1..9)), {<<3, "tag", 45>>})
    [] k = "thermo" -> Counts(1, 3, 12)
    [] k = "mulliken" -> Long(Pick(<<"tag", 2, FALSE>>, {<<"plain", 2, FALSE>>, <<"mixed", 3, TRUE>>}, Forms \X (0..9) \X BOOLEAN), {<<"mixed", 60, TRUE>>, <<"tag", 120, FALSE>>})
    [] k \in {"born"} -> Long(Pick(<<"plain", 2>>, {<<"plain", 1>>, <<"tag", 3>>}, {"plain", "tag"} \X (1..9)), {<<"tag", 40>>})
    [] k = "orbpop" -> Long(Pick(<<"tag", 2, 2, FALSE>>, {<<"plain", 1, 4, FALSE>>, <<"tag", 2, 3, FALSE>>}, {"plain", "tag"} \X (1..6) \X {1, 4, 10} \X BOOLEAN), {<<"tag", 25, 10, FALSE>>})
    [] k = "bonds" -> Long(Pick(<<"tag", 2, FALSE>>, {<<"plain", 2, TRUE>>, <<"mixed", 3, FALSE>>}, Forms \X (0..9) \X BOOLEAN), {<<"mixed", 60, TRUE>>})
    [] k = "hirshfeld" -> AtomTables(9)
    [] k = "elf" -> Counts(1, 3, 12)
    [] k = "mddata" -> Pick(<<1, 2, 3, 8>>, {<<2>>, <<1, 2, 3, 4, 5, 6, 7, 8>>}, {q \in SeqsOf(1..9, 1, 2) : Len(q) = 1 \/ q[1] # q[2]} \cup {<<1, 2, 3, 4, 5, 6, 8, 9>>})
    [] k = "finalconfig" -> Long(Pick(<<"LBFGS", "tag", 2, TRUE, TRUE>>, {<<"BFGS", "plain", 2, TRUE, TRUE>>, <<"LBFGS", "mixed", 3, FALSE, TRUE>>},
                                 Minimisers \X Forms \X {0, 2, 9} \X BOOLEAN \X BOOLEAN), {<<"TPSD", "tag", 80, TRUE, TRUE>>})
    [] k = "finalline" -> Pick(<<"LBFGS", "bulk">>, {<<"BFGS", "bulk">>, <<"LBFGS", "unchanged">>}, Minimisers \X {"bulk", "freq", "unchanged", "enthalpy"})
    [] k = "enthalpy" -> Pick("LBFGS", {"LBFGS", "BFGS"}, Minimisers)
    [] k = "trial" -> Pick("LBFGS", {"LBFGS", "TPSD"}, Minimisers)
    [] k \in {"mintable", "convergence"} -> Pick(<<"LBFGS", 2>>, {<<"BFGS", 1>>, <<"LBFGS", 4>>}, Minimisers \X (0..4))
    [] k = "internal" -> Counts(1, 3, 7)
    [] k = "deloc" -> Counts(0, 2, 9)
    [] k = "tddft" -> Counts(1, 3, 9)
    [] k = "bands" -> Long(Pick(<<2, 2, 1>>, {<<1, 3, 1>>, <<3, 2, 2>>}, (1..6) \X (1..12) \X (1..2)), {<<45, 60, 1>>, <<3, 120, 2>>})
    [] k = "magres" -> Long(Pick(<<1, "tag", 2>>, {<<1, "plain", 2>>, <<4, "tag", 3>>}, (1..6) \X {"plain", "tag"} \X {0, 1, 2, 9}), {<<w, "tag", 45>> : w \in 1..6})
    [] k = "elastic" -> Pick("constants", {"constants", "compliance", "Ewald"}, {"constants", "compliance", "Ewald", "<psi^1|H^(1)|psi^0>", "Non-local"})
    [] k = "berryverbose" -> Counts(1, 2, 8)
    [] k = "deltascf" -> Long(Pick(<<2, TRUE, TRUE>>, {<<1, TRUE, FALSE>>, <<3, TRUE, TRUE>>}, (1..5) \X BOOLEAN \X BOOLEAN), {<<9, TRUE, TRUE>>})
    [] OTHER -> {0}

-----------------------------------------------------------------------------
(* What a section does to a mapping *)
Views == SetToSeq(IF WithPresets THEN ViewSet \cup {Presets[q] : q \in DOMAIN Presets} ELSE ViewSet)
NoPairs == Map(<<>>)
RECURSIVE At(_, _, _, _)
At(m, p, o, v) ==
  LET k == p[1] IN
  IF Len(p) > 1 THEN Put(m, k, At(Get(m, k, Mark), Tail(p), o, v))
  ELSE CASE o = "set" -> Put(m, k, v)
         [] o = "add" -> Push(m, k, v)
         [] o = "upd" -> Put(m, k, Map(Get(m, k, NoPairs).map_ \o v))
         [] o = "def" -> Put(m, k, Get(m, k, Mark))
         [] o = "none" -> m
Wanted(c, flt) == (\E n \in c.n : n \subseteq flt) /\ c.x \cap flt = {}
Apply(m, con, flt) == FoldLeft(LAMBDA a, c : IF Wanted(c, flt) THEN At(a, c.p, c.o, c.v) ELSE a, m, con)
\* the same, as a reader with the recorded findings does it
ApplyAs(m, con, flt) == FoldLeft(LAMBDA a, c : IF Wanted(c, flt) THEN At(a, c.p, c.od, c.dv) ELSE a, m, con)
Taken(con, flt) == {Len(rows) * 1000 + j : j \in {i \in DOMAIN con : Wanted(con[i], flt)}}
Found(con, flt) == {con[k].d : k \in {j \in DOMAIN con : con[j].d # "" /\ Wanted(con[j], flt)}}

\* a reader: what it should have, what it has given the recorded findings, and the keys of those findings
Fresh == [runs |-> <<>>, cur |-> Mark, step |-> Mark, as |-> <<>>, curAs |-> Mark, stepAs |-> Mark, keys |-> {}, took |-> {}]
Reads(v, con, flt) ==
  IF ctx = "run" THEN [v EXCEPT !.cur = Apply(@, con, flt), !.curAs = ApplyAs(@, con, flt), !.keys = @ \cup Found(con, flt), !.took = @ \cup Taken(con, flt)]
  ELSE IF (IF ctx = "geom" THEN "GEOM_OPT" ELSE "MD") \in flt
       THEN [v EXCEPT !.step = Apply(@, con, flt), !.stepAs = ApplyAs(@, con, flt), !.keys = @ \cup Found(con, flt), !.took = @ \cup Taken(con, flt)]
       ELSE v
Filled(m) == DOMAIN m # {"mapping_"}
Close(runs, m) == IF Filled(m) THEN Append(runs, m) ELSE runs
NewRun(v) == [v EXCEPT !.runs = Close(@, v.cur), !.cur = Mark, !.as = Close(@, v.curAs), !.curAs = Mark]

-----------------------------------------------------------------------------
(* Steps of molecular dynamics, iterations of a geometry optimisation *)
\* in a step, the initial configuration is simply the configuration
Renamed(m) == LET has == DOMAIN m \cap {"initial_cell", "initial_positions"} IN
  [k \in (DOMAIN m \ has) \cup {IF h = "initial_cell" THEN "cell" ELSE "positions" : h \in has} |->
     IF k = "cell" /\ "initial_cell" \in has THEN m["initial_cell"] ELSE IF k = "positions" /\ "initial_positions" \in has THEN m["initial_positions"] ELSE m[k]]
\* a memory estimate belongs to the run
MdStep(m, s, replace) ==
  LET a == Push(m, "md", Renamed(Without(s, {"memory_estimate"}))) IN
  IF ~Has(s, "memory_estimate") THEN a ELSE Put(a, "memory_estimate", (IF replace THEN <<>> ELSE Get(m, "memory_estimate", <<>>)) \o s["memory_estimate"])
\* what was found before the first iteration is the data of the initial configuration
Moved == {"enthalpy", "scf", "forces", "stresses", "minimisation"}
GeomStart(m) ==
  LET g == Get(m, "geom_opt", Mark)
      first == Renamed(Put(Only(m, Moved \cup {"initial_cell", "initial_positions"}), "mapping_", TRUE)) IN
  IF Has(g, "iterations") THEN m ELSE Put(Without(m, Moved), "geom_opt", Put(g, "iterations", <<first>>))
GeomStep(m, s) == Put(m, "geom_opt", Push(m["geom_opt"], "iterations", Renamed(s)))
Opens(v, c, flt) ==
  IF c = "geom" /\ "GEOM_OPT" \in flt THEN [v EXCEPT !.cur = GeomStart(@), !.curAs = GeomStart(@), !.step = Mark, !.stepAs = Mark]
  ELSE [v EXCEPT !.step = Mark, !.stepAs = Mark]
Closes(v, flt) ==
  IF ctx = "geom" THEN (IF "GEOM_OPT" \in flt THEN [v EXCEPT !.cur = GeomStep(@, v.step), !.curAs = GeomStep(@, v.stepAs)] ELSE v)
  ELSE IF "MD" \in flt
       THEN [v EXCEPT !.cur = MdStep(@, v.step, FALSE), !.curAs = MdStep(@, v.stepAs, TRUE),
                      !.keys = @ \cup (IF Has(v.step, "memory_estimate") /\ Has(v.cur, "memory_estimate") THEN {"md-memory"} ELSE {})]
       ELSE v

-----------------------------------------------------------------------------
Init == rows = <<>> /\ ctx = "run" /\ views = [k \in DOMAIN Views |-> Fresh]
        /\ left = [sections |-> Length, runs |-> Runs, iter |-> Iterations, run |-> {}, step |-> {}, first |-> {}, from |-> 0]
        /\ last = "" /\ status = "printing"

Rule80 == "--------------------------------------------------------------------------------"
Eq80 == "================================================================================"
GapRows(g) == CASE g = "none" -> <<>> [] g = "blank" -> <<E>> [] g = "text" -> <<L("  The model has been written to a file"), E>>
                [] g = "rule" -> <<E, L(Rule80), E>> [] g = "blanks" -> <<E, E, E>>
\* sections whose first line is not indented
Flush == {"energies", "scf", "bsc", "linemin", "occupancies", "spindensity", "deloc", "parallel", "continuation"}
\* an unindented row of "=" ends an iteration; any row of "=" ends the zeroth step
NotInGeom == {"build", "finalconfig", "finalline", "mulliken", "bonds", "hirshfeld", "berry", "berryverbose", "mddata"}
InMd == {"energies", "scf", "forces", "stress", "mddata", "positions", "velocities", "cell", "warn", "warnbox", "spins", "spindensity", "solve", "dedlne",
         "linemin", "occupancies", "memory", "symmetry", "labelled", "mixture", "kpoints", "elf", "convergence", "final", "klist", "psenergy"}
Fits(k) == CASE ctx = "run" -> TRUE [] ctx = "geom" -> k \notin NotInGeom [] ctx = "md" -> k \notin {"build", "enthalpy"} [] ctx = "md0" -> k \in InMd
\* the previous section may need a blank line, or an unindented one, after it; the enthalpy of one level comes from one kind of section;
\* a finite-basis block is not preceded by other cycles of its level nor followed by them
Seen == IF ctx = "run" THEN left.run ELSE left.step
May(k, g) == /\ (last = "tight" => g \in {"blank", "rule", "blanks"} \/ (g = "none" /\ k \in Flush))
             /\ Fits(k)
             /\ (k \in {"enthalpy", "mddata"} => {"enthalpy", "mddata"} \cap Seen \subseteq {k})
             /\ (k = "bsc" => {"scf", "bsc"} \cap Seen = {})
             /\ (k = "scf" => "bsc" \notin Seen)
             /\ (k = "build" /\ rows # <<>> => left.runs > 1)
             /\ (Again /\ left.first # {} => k \in left.first \cup {"build"})
Write(k, p, g) ==
  /\ status = "printing" /\ left.sections > 0 /\ k \in Kinds
  /\ May(k, g)
  /\ LET gap == GapRows(g)
         s == Section(k, p, Len(rows) + Len(gap) + 1)
         fresh == k = "build" /\ rows # <<>> IN
     /\ rows' = rows \o gap \o s.rows
     /\ views' = [v \in DOMAIN views |-> Reads(IF fresh THEN NewRun(views[v]) ELSE views[v], s.con, Views[v])]
     /\ left' = [left EXCEPT !.sections = @ - 1, !.first = IF @ = {} THEN {k} ELSE @, !.from = Len(rows) + Len(gap), !.runs = IF fresh THEN @ - 1 ELSE @, 
                          !.run = IF fresh THEN {k} ELSE IF ctx = "run" THEN @ \cup {k} ELSE @, !.step = IF ctx = "run" THEN @ ELSE @ \cup {k}]
  /\ last' = IF k = "warn" THEN (IF p[3] THEN k ELSE "tight") ELSE k
  /\ UNCHANGED <<ctx, status>>

Open(c, m) ==
  /\ status = "printing" /\ ctx = "run" /\ left.iter > 0 /\ rows # <<>>
  /\ ctx' = c
  /\ rows' = rows \o <<E, L(Eq80)>>
             \o (CASE c = "md" -> <<R(" Starting MD iteration {n:10d|1|99999} ..."), L(Eq80), E>> [] c = "md0" -> <<E, L("Starting MD"), E>>
                   [] c = "geom" -> <<T(" Starting {0} iteration {n:10d|1|99999} ...", <<m>>), L(Eq80), E>>)
  /\ views' = [v \in DOMAIN views |-> Opens(views[v], c, Views[v])]
  /\ left' = [left EXCEPT !.iter = @ - 1, !.step = {}]
  /\ last' = "" /\ UNCHANGED status
End == /\ status = "printing" /\ ctx # "run"
       /\ ctx' = "run" /\ last' = "" /\ UNCHANGED status
       /\ rows' = rows \o (CASE ctx = "md" -> <<E, L(Rule80), R(" ... finished MD iteration {n:10d|1|99999}"), L(Rule80)>> [] OTHER -> <<E, L(Eq80), E>>)
       /\ views' = [v \in DOMAIN views |-> Closes(views[v], Views[v])]
       /\ UNCHANGED left
Finish == /\ status = "printing" /\ left.sections = 0 /\ ctx = "run"
          /\ views' = [v \in DOMAIN views |-> NewRun(views[v])] /\ status' = "done" /\ UNCHANGED <<rows, ctx, left, last>>

-----------------------------------------------------------------------------
(* A file cut short: the rows after which a section has started but not ended *)
Bare == {"started", "final", "parallel", "continuation", "warn", "title", "efield", "quantisation", "energies", "solve", "dedlne", "supercell",
         "spindensity", "finalline", "enthalpy", "trial", "pspdebug"}
Opening(k) == CASE k \in {"build", "warnbox", "memory", "options", "pair", "targetstress", "psenergy", "mass", "quadrupole", "pots", "linemin", "autosolv",
                          "forces", "comforce", "stress", "mulliken", "orbpop", "bonds", "hirshfeld", "elf", "mintable", "convergence", "internal",
                          "deloc", "active", "deltascf"} -> 1
                [] k \in {"bands", "dipole"} -> 3 [] k \in {"occupancies", "positions"} -> 4 [] OTHER -> 2
Closing(k) == CASE k = "bsc" -> 4 [] k = "tddft" -> 2 [] OTHER -> 0
Cuts == IF last \in Kinds /\ last \notin Bare THEN (left.from + Opening(last))..(Len(rows) - Closing(last) - 1) ELSE {}
Cut == /\ status = "printing" /\ Faults
       /\ \E j \in Cuts \cup (IF ctx # "run" THEN {Len(rows)} ELSE {}) : rows' = SubSeq(rows, 1, j)
       /\ status' = "cut" /\ UNCHANGED <<ctx, views, left, last>>

Next == \/ Cut \/ \E k \in Kinds : \E p \in Form(k), g \in Gaps : Write(k, p, g)
        \/ \E c \in {"md", "md0", "geom"} : Open(c, "LBFGS")
        \/ End \/ Finish
Spec == Init /\ [][Next]_vars

\* one random continuation at a time
Chance(n) == RandomElement(1..100) <= n
NextRandom ==
  \/ /\ status = "printing"
     /\ \E d \in {Len(rows) >= 0 /\ Chance(18)} :
       IF d /\ (ctx # "run" \/ (left.iter > 0 /\ rows # <<>>))
       THEN (IF ctx = "run" THEN (\E c \in {RandomElement({"md", "md0", "geom"})}, m \in {RandomElement(Minimisers)} : Open(c, m)) ELSE End)
       ELSE /\ left.sections > 0
            /\ \E k \in {RandomElement({j \in Kinds : \E g \in Gaps : May(j, g)})} :
                 \E p \in {RandomElement(Form(k))}, g \in {RandomElement({h \in Gaps : May(k, h)})} : Write(k, p, g)
  \/ (left.sections = 0 /\ End)
  \/ Finish
  \/ (left.sections = 0 /\ Faults /\ \E j \in Cuts \cup (IF ctx # "run" THEN {Len(rows)} ELSE {}) : rows' = SubSeq(rows, 1, j) /\ status' = "cut"
                                   /\ UNCHANGED <<ctx, views, left, last>>)
SpecRandom == Init /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
(* Properties of the specification *)
Done(v) == views[v].runs \o <<views[v].cur>>
\* a reader of nothing still gets the energies
Unfiltered == {"energies", "bsc_energies", "supercell", "dedlne"}
NothingAsked == \A v \in DOMAIN Views : Views[v] = {} =>
                   \A k \in DOMAIN Done(v) : DOMAIN Done(v)[k] \subseteq Unfiltered \cup {"mapping_"}
\* asking for more takes nothing away: what two readers both have is the same, apart from mappings several categories share,
\* the data of the initial configuration, pseudopotential strings, which PSPOT decomposes, and memory estimates, which steps add to
Shared == {"energies", "geom_opt", "md", "mapping_"}
Agree == \A v, w \in DOMAIN Views : Views[v] \subseteq Views[w] =>
           LET a == views[v].cur b == views[w].cur
               moved == IF "GEOM_OPT" \in Views[w] \ Views[v] THEN Moved ELSE {}
               other == (IF "PSPOT" \in Views[w] \ Views[v] THEN {"species_properties"} ELSE {})
                        \cup (IF "MD" \in Views[w] \ Views[v] THEN {"memory_estimate"} ELSE {}) IN
           /\ DOMAIN a \ moved \subseteq DOMAIN b
           /\ \A k \in DOMAIN a \ (Shared \cup moved \cup other) : a[k] = b[k]
\* what was finished stays as it was; what is printed inside a step stays out of its run until the step ends
Finished == [][\A v \in DOMAIN views : IsPrefix(views[v].runs, views'[v].runs)]_vars
Apart == [][(ctx # "run" /\ ctx' # "run") => \A v \in DOMAIN views : views'[v].cur = views[v].cur]_vars
MdSteps(m) == Get(m, "md", <<>>)
Frames(m) == IF Has(m, "geom_opt") THEN Get(m["geom_opt"], "iterations", <<>>) ELSE <<>>
InOrder == [][(last' # "build") => \A v \in DOMAIN views : (status' = "printing") =>
                /\ IsPrefix(MdSteps(views[v].cur), MdSteps(views'[v].cur)) /\ IsPrefix(Frames(views[v].cur), Frames(views'[v].cur))]_vars

PresetsNested == /\ Presets.LOW \subseteq Presets.MEDIUM /\ Presets.MEDIUM \subseteq Presets.HIGH /\ Presets.HIGH \subseteq Presets.FULL
                 /\ Categories \ Presets.ALL = {"TEST_EXTRA_DATA"} /\ Default \in DOMAIN Presets

\* one case for the views that are to have the same; the names of the presets are given besides their sets
Names(v) == LET same == {q \in DOMAIN Presets : WithPresets /\ Presets[q] = Views[v]} IN
            SetToSeq(same) \o (IF Default \in same THEN <<"">> ELSE <<>>)
Case(g) == LET some == CHOOSE v \in g : TRUE IN
  [flts |-> SetToSeq({<<SetToSeq(Views[v]), Names(v)>> : v \in g}), exp |-> views[some].runs,
   dev |-> IF views[some].keys = {} THEN <<>> ELSE << <<SetToSeq(views[some].keys), views[some].as>> >>]
\* readers who took the same data, and gather the same steps, have the same
Alike(v) == <<views[v].took, Iterations > 0 /\ "GEOM_OPT" \in Views[v], Iterations > 0 /\ "MD" \in Views[v]>>
Cases == {Case({w \in DOMAIN views : Alike(w) = a}) : a \in {Alike(v) : v \in DOMAIN views}}
Emit == /\ (status = "cut" => PrintT(ToJson([doc |-> rows, err |-> TRUE])))
        /\ (status = "done" /\ ~Faults) => PrintT(ToJson([doc |-> rows, cases |-> SetToSeq(Cases)]))
=============================================================================
