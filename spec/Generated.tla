----------------------------- MODULE Generated -----------------------------
(* Which files a calculation produces: the decision table of the .param and  *)
(* .cell settings. A state is a set of chosen options (a partial function);  *)
(* each step sets one more. File names starting with "=" are absolute, all   *)
(* others are appended to the seedname. Values: "T"/"F" logicals, "#n"       *)
(* integers, anything else a string whose letter case does not matter.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOpts,      \* how many options beyond task and cell
          AllNames,     \* TRUE: every alias of every task; FALSE: one name per task
          Group         \* "all", or the name of a group of options that act together

VARIABLES task, cell, cfg
vars == <<task, cell, cfg>>

(* ---- task names and what they mean ---- *)
Tasks == [SINGLEPOINT |-> "SP", PHONON |-> "PHONON", PHONON_EFIELD |-> "PHEF", EFIELD |-> "EFIELD",
          THERMODYNAMICS |-> "THERMO", EPCOUPLING |-> "EPC", ELASTIC |-> "ELASTIC", GEOMOPT |-> "GEOM",
          MD |-> "MD", SOCKET_DRIVER |-> "SOCKET", TRANSITION_STATE_SEARCH |-> "TSS", WANNIER |-> "WANNIER",
          MAGRES |-> "MAGRES", SPECTRAL |-> "SPECTRAL", AUTOSOLVATION |-> "SOLV"]
Aliases == [GEOMETRYOPTIMISATION |-> "GEOM", GEOMETRYOPTIMIZATION |-> "GEOM", GEOM |-> "GEOM", SPE |-> "SP",
            ENERGY |-> "SP", MOLECULARDYNAMICS |-> "MD", DYNAMICS |-> "MD", SOCKETDRIVER |-> "SOCKET",
            TSS |-> "TSS", TRANSITIONSTATESEARCH |-> "TSS", PHONONEFIELD |-> "PHEF",
            ELECTRONICSPECTROSCOPY |-> "SPECTRAL", BANDSTRUCTURE |-> "SPECTRAL", ELNES |-> "SPECTRAL",
            OPTICS |-> "SPECTRAL"]
Spelt == "PHONON+EFIELD" :> "PHEF" @@ "(unset)" :> "SP" @@ "(nonsense)" :> "BAD"
Table == Tasks @@ Aliases @@ Spelt
Names == IF AllNames THEN DOMAIN Table ELSE DOMAIN Tasks
Kind == Table[task]

(* ---- options and their values ---- *)
Bools == {"write_none", "write_bands", "write_bib", "write_cst_esp", "write_formatted_potential",
          "write_formatted_density", "calculate_densdiff", "calculate_elf", "write_formatted_elf",
          "write_formatted_dielec_perm", "write_orbitals", "write_cif_structure", "write_cell_structure",
          "efield_calc_ion_permittivity", "calculate_modos", "pdos_calculate_weights", "write_otfg",
          "spin_orbit_coupling", "spin_polarised", "spin_polarized", "spectral_restart", "write_geom",
          "write_md", "magres_write_response", "phonon_calculate_dos"}
Devel == {"d:write_formatted_bands", "d:zdos_scf", "d:write_unformatted_density", "d:trace", "d:prof",
          "d:profclass", "d:pp_hybrid", "d:lda_sf_pot_write", "d:calculate_xrd_sf", "d:zdos_spectral",
          "d:_pp", "d:pp/pot_print", "d:pp/fd_check", "d:calc_elastic", "d:elastic/deform_pot",
          "d:phonon/write_first_order_potential", "d:tddft/den1_write", "d:tddft/save_td_den_fmt",
          "d:spectral/calc_core", "d:spectral/calc_ome", "d:spectral/calc_pdos", "d:spectral/calc_dome",
          "d:spectral_spinvec", "d:spectral_spinvec_append"}
Choices == [write_checkpoint |-> {"T", "F", "ALL", "BOTH", "FULL", "MINIMAL", "NONE", "(nonsense)"},
            xc_functional |-> {"LDA", "PBE", "PW91", "RPBE", "PBESOL", "WC", "BLYP", "MS2", "RSCAN", "R2SCAN",
                               "LDA_PW", "HF", "SHF", "PBE0", "B3LYP", "HSE06", "OEP", "ELP", "LFX"},
            xc_definition |-> {"LIBXC_LDA_C_VWN", "LIBXC_GGA_X_B88", "LIBXC_MGGA_X_TPSS", "LIBXC_HYB_GGA_XC_B3LYP",
                               "LIBXC_HYB_MGGA_XC_TPSSH", "PBE LIBXC_LDA_C_VWN", "PBE0 RPBE", "HF LDA WC",
                               "HF PBE", "LIBXC_GGA_X_B88 R2SCAN"},
            spin_treatment |-> {"NONE", "SCALAR", "VECTOR"},
            tddft_selected_state |-> {"#0", "#1", "#2"},
            spectral_task |-> {"CORELOSS", "BANDSTRUCTURE", "OPTICS", "DOS", "ALL"},
            spectral_theory |-> {"DFT", "TDDFT"},
            geom_method |-> {"LBFGS", "PES"},
            md_ensemble |-> {"NVE", "NVHUG", "NPHUG"},
            md_extrap |-> {"NONE", "FIRST", "SECOND", "MIXED"},
            opt_strategy |-> {"DEFAULT", "MEMORY", "SPEED"},
            opt_strategy_bias |-> {"#-3", "#-1", "#0", "#1"},
            metals_method |-> {"DM", "EDFT"},
            md_num_beads |-> {"#1", "#2", "#16"},
            num_farms |-> {"#1", "#2", "#12"}]
Born == "d:phonon/write_external_born" :> {"born.DAT"}
Pots == [pot_Si |-> {"otf", "print", "lib", "usp"}, pot_Fe |-> {"otf", "print", "lib", "usp"}]

AllOpts == [o \in Bools \cup Devel |-> {"T", "F"}] @@ Choices @@ Born @@ Pots

(* ---- options which act together: explored to a greater depth ---- *)
Grp(t, c, o) == [tasks |-> t, cells |-> c, opts |-> o]
XcOpts == {"xc_functional", "xc_definition"}
SpinOpts == {"spin_treatment", "spin_orbit_coupling", "spin_polarised", "spin_polarized"}
Groups ==
  [spectral |-> Grp({"SPECTRAL", "BANDSTRUCTURE"}, {"none"},
                    {"spectral_task", "spectral_theory", "spectral_restart", "write_orbitals", "pdos_calculate_weights",
                     "d:spectral/calc_core", "d:spectral/calc_ome", "d:spectral/calc_pdos", "d:spectral/calc_dome",
                     "d:spectral_spinvec", "d:spectral_spinvec_append", "d:zdos_spectral"} \cup XcOpts),
   md |-> Grp({"MD"}, {"none"}, {"write_none", "write_md", "md_ensemble", "md_extrap", "opt_strategy", "opt_strategy_bias",
                     "metals_method", "md_num_beads", "num_farms", "d:pp_hybrid"}),
   write |-> Grp({"SINGLEPOINT"}, {"none"}, {"write_none", "write_checkpoint", "write_bands", "write_bib", "write_cst_esp",
                     "tddft_selected_state", "d:tddft/den1_write", "d:tddft/save_td_den_fmt", "d:_pp", "d:pp/pot_print", "d:pp/fd_check",
                     "d:write_formatted_bands", "d:trace", "d:prof", "d:profclass"}),
   fields |-> Grp({"SINGLEPOINT", "ELNES"}, {"none"}, {"write_formatted_density", "calculate_densdiff", "calculate_elf", "write_formatted_elf",
                     "write_formatted_potential", "write_formatted_dielec_perm", "write_none", "pdos_calculate_weights"} \cup XcOpts),
   pots |-> Grp({"SINGLEPOINT"}, {"SiFe"}, {"pot_Si", "pot_Fe", "write_otfg", "d:lda_sf_pot_write"} \cup SpinOpts \cup XcOpts),
   elastic |-> Grp({"SINGLEPOINT", "PHONON"}, {"SiFe", "SiFeAbs"}, {"d:calc_elastic", "d:elastic/deform_pot", "pot_Si", "d:pp/pot_print", "d:_pp",
                     "spin_polarised", "xc_functional"}),
   phonon |-> Grp({"PHONON", "PHONON_EFIELD", "EFIELD", "GEOMOPT", "EPCOUPLING"}, {"none"},
                  {"phonon_calculate_dos", "d:phonon/write_external_born", "d:phonon/write_first_order_potential",
                   "efield_calc_ion_permittivity", "write_none", "write_geom", "geom_method", "d:pp_hybrid"})]

Opts == IF Group = "all" THEN AllOpts ELSE [o \in Groups[Group].opts |-> AllOpts[o]]
Allowed(o) == o \in DOMAIN Pots => cell # "none"

Is(o, v) == o \in DOMAIN cfg /\ cfg[o] = v
On(o) == Is(o, "T")
Not(o) == Is(o, "F")
OnBy(o, default) == IF o \in DOMAIN cfg THEN cfg[o] = "T" ELSE default
Val(o, default) == IF o \in DOMAIN cfg THEN cfg[o] ELSE default

(* ---- what the exchange-correlation settings amount to ---- *)
Libxc == [LIBXC_LDA_C_VWN |-> {"libxc_lda"}, LIBXC_GGA_X_B88 |-> {"libxc_gga"}, LIBXC_MGGA_X_TPSS |-> {"libxc_mgga"},
          LIBXC_HYB_GGA_XC_B3LYP |-> {"libxc_hyb_gga"}, LIBXC_HYB_MGGA_XC_TPSSH |-> {"libxc_hyb_mgga"}]
         @@ ("PBE LIBXC_LDA_C_VWN" :> {"PBE", "libxc_lda"}) @@ ("PBE0 RPBE" :> {"PBE0", "RPBE"})
         @@ ("HF LDA WC" :> {"HF", "LDA", "WC"}) @@ ("HF PBE" :> {"HF", "PBE"})
         @@ ("LIBXC_GGA_X_B88 R2SCAN" :> {"libxc_gga", "R2SCAN"})
Xc == IF "xc_definition" \in DOMAIN cfg THEN Libxc[cfg["xc_definition"]] ELSE {Val("xc_functional", "LDA")}
Mgga == Xc \cap {"MS2", "RSCAN", "R2SCAN", "libxc_mgga", "libxc_hyb_mgga"} # {}
Nlxc == Xc \cap {"HF", "HF-LDA", "SHF", "SX-LDA", "SHF-LDA", "PBE0", "B3LYP", "HSE03", "HSE06", "SPBE0"} # {}
Oep == Xc \cap {"OEP", "LFX", "ELP", "CEDA"} # {}
Theories == [PW91 |-> "pbe", PBE |-> "pbe", RPBE |-> "rpbe", PBESOL |-> "pbesol", WC |-> "wc", BLYP |-> "blyp",
             MS2 |-> "ms2", RSCAN |-> "rscan", R2SCAN |-> "rscan", LDA_PW |-> "lda_pw"]
Known == Xc \cap DOMAIN Theories
Theory == CASE Xc \cap {"libxc_mgga", "libxc_hyb_mgga"} # {} -> "RSCAN"
            [] Xc \cap {"libxc_gga", "libxc_hyb_gga"} # {} -> "PBE"
            [] OTHER -> IF Known = {} THEN "LDA" ELSE Theories[CHOOSE x \in Known : TRUE]
Spin == Is("spin_treatment", "VECTOR") \/ On("spin_orbit_coupling") \/ On("spin_polarised") \/ On("spin_polarized")
Tddft == Is("tddft_selected_state", "#1") \/ Is("tddft_selected_state", "#2")
Pp == On("d:_pp")
HasElastic == "d:elastic/deform_pot" \in DOMAIN cfg
Quiet == On("write_none")
\* the atoms of a cell are given in fractions, or as absolute positions
Species == IF cell = "none" THEN {} ELSE {"Si", "Fe"}

When(c, S) == IF c THEN S ELSE {}

(* ---- the table ---- *)
Checkpoint == LET w == IF Quiet THEN "F" ELSE Val("write_checkpoint", "ALL")
              IN CASE w \in {"T", "ALL", "BOTH", "FULL"} -> {".check", ".castep_bin"}
                   [] w = "MINIMAL" -> {".castep_bin"}
                   [] OTHER -> {}
Written(o) == ~Quiet /\ ~Not(o)

General ==
  {".castep"} \cup Checkpoint
  \cup When(Written("write_bands") /\ ~Pp, {IF Tddft THEN "_tddft.bands" ELSE ".bands"})
  \cup When(Written("write_bib"), {".bib"})
  \cup When(Written("write_cst_esp") /\ ~Pp, {".cst_esp"})
  \cup When(On("write_formatted_potential"), {".pot_fmt"})
  \cup When(On("write_formatted_potential") /\ Oep, {".oep_fmt"})
  \cup When(On("write_formatted_density"), {".den_fmt"})
  \cup When(On("calculate_densdiff"), {".chdiff"})
  \cup When(On("calculate_densdiff") /\ On("write_formatted_density"), {".chdiff_fmt"})
  \cup When(On("calculate_elf"), {".elf"})
  \cup When(On("calculate_elf") /\ On("write_formatted_elf"), {".elf_fmt"})
  \cup When(On("write_formatted_dielec_perm"), {".eps_format"})
  \cup When(On("write_orbitals"), {".orbitals"})
  \cup When(On("write_cif_structure"), {"-out.cif"})
  \cup When(On("write_cell_structure"), {"-out.cell"})
  \cup When(On("efield_calc_ion_permittivity"), {".efield"})
  \cup When(On("calculate_modos"), {".modos_state*"})
  \cup When(On("pdos_calculate_weights") /\ task \notin {"BANDSTRUCTURE", "ELECTRONICSPECTROSCOPY"}, {".pdos_weights"})
  \cup When(Tddft, {".tddft"})

Developer ==
  When(On("d:write_formatted_bands"), {"_*.orbit_fmt"})
  \cup When(On("d:zdos_scf"), {".scf_zdos"})
  \cup When(On("d:write_unformatted_density"), {".altden"})
  \cup When(On("d:trace") \/ On("d:prof") \/ On("d:profclass"), {".*.profile"})
  \cup When(On("d:pp_hybrid") /\ Kind \in {"GEOM", "MD"}, {".hybrid-md.xyz"})
  \cup When(Spin /\ On("d:lda_sf_pot_write"), {".B_xc.pot_fmt"})
  \cup When(On("d:calculate_xrd_sf"), {".xrd_sf"})
  \cup When(On("d:zdos_spectral") /\ Kind = "SPECTRAL", {".spectral_zdos"})
  \cup When(Pp /\ On("d:pp/pot_print"), IF cell = "none" THEN {"_*_.pot"} ELSE {"_Si_Si.pot", "_Si_Fe.pot", "_Fe_Fe.pot"})
  \cup When(Pp /\ On("d:pp/fd_check"), {".fd"})
  \cup When(On("d:calc_elastic") \/ HasElastic, {".elastic"})
  \cup When(Tddft /\ On("d:tddft/den1_write"), {".td_den"})
  \cup When(Tddft /\ On("d:tddft/save_td_den_fmt"), {"=den_dump*.dat"})

(* On-the-fly pseudopotentials write themselves out, and details on request. *)
Pseudo(s) == LET name == "=" \o s \o "_EXT_" \o Theory \o "_OTF"
                 pot == Val("pot_" \o s, "lib")
             IN When(pot = "print", {name \o x : x \in {".gamma", ".pwave", ".beta", ".econv"}})
                \cup When(pot \in {"print", "otf"} /\ ~Mgga /\ ~Not("write_otfg"), {name \o (IF Spin THEN ".uspso" ELSE ".usp")})

Farms == LET n == CASE Is("num_farms", "#2") -> 2 [] Is("num_farms", "#12") -> 12 [] OTHER -> 1
             Pad(i) == IF i < 10 THEN "00" \o ToString(i) ELSE "0" \o ToString(i)
         IN When(n > 1 /\ Val("md_num_beads", "#1") # "#1", {"_farm" \o Pad(i) \o ".castep" : i \in 0 .. n - 1})

Dynamics ==
  LET mem == Is("opt_strategy", "MEMORY") \/ Val("opt_strategy_bias", "#0") \notin {"#-3", "#-1"}
      extrap == Val("md_extrap", "FIRST")
      keep == mem /\ ~Is("metals_method", "EDFT")
  IN When(Written("write_md"), {".md"})
     \cup When(Val("md_ensemble", "NVE") \in {"NVHUG", "NPHUG"}, {".hug"})
     \cup When(keep /\ extrap # "NONE", {".*.wfm", ".*.drhom"})
     \cup When(keep /\ extrap \in {"SECOND", "MIXED"}, {".*.wf2m", ".*.drho2m"})
     \cup Farms

SpecTask == Val("spectral_task", "BANDSTRUCTURE")
SpecTddft == Is("spectral_theory", "TDDFT")
Spectroscopy ==
  LET elnes == IF SpecTddft THEN FALSE ELSE SpecTask = "CORELOSS" \/ (SpecTask = "ALL" /\ ~Nlxc)
      ome == IF SpecTddft THEN FALSE ELSE SpecTask = "CORELOSS" \/ (SpecTask \in {"DOS", "ALL"} /\ ~Nlxc)
      dome == IF SpecTddft THEN SpecTask \in {"OPTICS", "ALL"} ELSE SpecTask = "OPTICS" \/ (SpecTask = "ALL" /\ ~Nlxc)
      bin(x) == (IF SpecTddft THEN "_tddft." ELSE ".") \o x \o "_bin"
  IN {"-out.cell"}
     \cup When(~Not("spectral_restart"), {".*.spec"})
     \cup When(task = "BANDSTRUCTURE", {".orbitals"})
     \cup When("d:spectral_spinvec" \in DOMAIN cfg /\ "d:spectral_spinvec_append" \in DOMAIN cfg, {".nc_spinvec"})
     \cup When(OnBy("d:spectral/calc_core", elnes), {bin("elnes")})
     \cup When(OnBy("d:spectral/calc_ome", ome), {bin("ome")})
     \cup When(OnBy("d:spectral/calc_pdos", On("pdos_calculate_weights")), {bin("pdos")})
     \cup When(OnBy("d:spectral/calc_dome", dome), {bin("dome")})

ByTask ==
  CASE Kind = "SOLV" -> {".vacuum_den"}
    [] Kind = "EPC" -> {".epme", "-*-*-*.ep_pot"}
    [] Kind = "GEOM" -> When(Written("write_geom"), {".geom"}) \cup When(Is("geom_method", "PES"), {".pes"})
    [] Kind = "SPECTRAL" -> Spectroscopy
    [] Kind = "MD" -> Dynamics
    [] Kind = "MAGRES" -> {".magres"} \cup When(On("magres_write_response"), {"=current.dat", "=gsden.cube"})
    [] Kind = "TSS" -> {".ts"}
    [] Kind \in {"PHONON", "PHEF"} ->
         {".phonon"} \cup When(On("phonon_calculate_dos"), {".phonon_dos"})
         \cup When(DOMAIN Born \subseteq DOMAIN cfg, {"=born.DAT"})
         \cup When(On("d:phonon/write_first_order_potential"), {"-*-*-*.ep_pot"})
         \cup When(Kind = "PHEF", {".efield"})
    [] Kind = "EFIELD" -> {".efield"}
    [] OTHER -> {}

(* Settings no calculation can run with, or whose files cannot be known. *)
Refused == \/ Kind \in {"SOCKET", "WANNIER", "BAD"}
           \/ Is("write_checkpoint", "(nonsense)") /\ ~Quiet
           \/ Kind = "SPECTRAL" /\ SpecTask = "CORELOSS" /\ (SpecTddft \/ Nlxc)

Files == General \cup Developer \cup ByTask \cup UNION {Pseudo(s) : s \in Species}

(* ---- the histories of setting options ---- *)
Init == /\ task \in (IF Group = "all" THEN Names ELSE Groups[Group].tasks)
        /\ cell \in (IF Group = "all" THEN {"none", "SiFe", "SiFeAbs"} ELSE Groups[Group].cells)
        /\ cfg = << >>
Set(o, v) == cfg' = [x \in DOMAIN cfg \cup {o} |-> IF x = o THEN v ELSE cfg[x]]
Next == /\ Cardinality(DOMAIN cfg) < MaxOpts
        /\ \E o \in DOMAIN Opts \ DOMAIN cfg : Allowed(o) /\ \E v \in Opts[o] : Set(o, v)
        /\ UNCHANGED <<task, cell>>
Spec == Init /\ [][Next]_vars

(* One random history at a time, for large sets of options. *)
Free == {o \in DOMAIN Opts \ DOMAIN cfg : Allowed(o)}
NextRandom == /\ Cardinality(DOMAIN cfg) < MaxOpts
              /\ \E o \in {RandomElement(Free)} : \E v \in {RandomElement(Opts[o])} : Set(o, v)
              /\ UNCHANGED <<task, cell>>
SpecRandom == Init /\ [][NextRandom]_vars

(* ---- properties of the table ---- *)
AlwaysCastep == ".castep" \in Files
\* Silencing everything really silences it.
NoneSilences == Quiet => Files \cap {".check", ".castep_bin", ".bib", ".cst_esp", ".bands", "_tddft.bands", ".geom", ".md"} = {}
\* A task's own files never appear under another task.
Own == [GEOM |-> {".geom", ".pes"}, MD |-> {".md", ".hug", ".*.wfm", ".*.wf2m"}, MAGRES |-> {".magres", "=current.dat"},
        TSS |-> {".ts"}, SOLV |-> {".vacuum_den"}, EPC |-> {".epme"}, SPECTRAL |-> {".*.spec", ".ome_bin", ".spectral_zdos"}]
OwnOnly == \A k \in DOMAIN Own : Kind # k => Files \cap Own[k] = {}
\* Pseudopotential file names do not depend on how the functional set is ordered.
TheoryUnique == Cardinality({Theories[x] : x \in Known}) <= 1 \/ Xc \cap {"libxc_gga", "libxc_mgga"} # {}
Emit == PrintT(ToJson([task |-> task, cell |-> cell, cfg |-> cfg, refused |-> Refused, files |-> IF Refused THEN {} ELSE Files]))
=============================================================================
