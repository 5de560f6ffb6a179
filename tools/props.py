"""Source of properties.jsonl: run `python3 tools/props.py` to rewrite it."""
import json
import pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


PK = "castep_outputs/"

prop("C01", "Lazy MD/geom trajectory access agrees with the eager parse",
     "For any .md or .geom trajectory laid out as CASTEP writes it (frames of one size, each followed by a blank line) and any interleaving of frame look-ups (positive and negative indices, slices of any step, "
     "index lists), sequential reads, iteration and jumps, the lazy trajectory reader returns exactly the frames an eager parse of the same "
     "file has at those positions, and its length is the number of frames. Random access never disturbs any later access beyond moving the read "
     "position to just after the frame fetched; out-of-range positions raise an index error, running past the end stops iteration, and neither "
     "corrupts later use.",
     ["histories", "inputs"], "every sequence of public operations on one lazy reader, for every trajectory (ensemble, atoms, frames)",
     "Tests exercise a handful of fixed access orders on one 3-frame sample; the guarantee is about arbitrary histories of a seekable cursor, "
     "where a stale position only shows after a particular sequence.",
     [PK + "tools/md_geom_parser.py", PK + "parsers/md_geom_file_parser.py"],
     [("MDGeomParser.__getitem__/get_frame/_get_index", PK + "tools/md_geom_parser.py"),
      ("MDGeomParser.__iter__/next_frame/read_next", PK + "tools/md_geom_parser.py")],
     ["values returned by the reader, len(), next_frame"],
     [("next frame", "index of the frame the next sequential read returns", PK + "tools/md_geom_parser.py")])

prop("C02", "Line cursors deliver every line once, in order, with true line numbers",
     "Reading a wrapped text source or an in-memory block yields each line exactly once in file order, and after any mix of reads and "
     "step-backs the next line delivered, and the line number reported for each delivered line, are those of the cursor position a plain list index would have. "
     "Stepping back on a file re-delivers exactly the last line (once, however often requested), stepping back n lines on a block moves n lines, "
     "and end of input is reported as such, repeatedly.",
     ["histories", "inputs"], "every sequence of next / iterate / step-back / rewind operations over every text",
     "No test drives the cursors directly; parser tests use only the read/step-back patterns of their sample inputs.",
     [PK + "utilities/filewrapper.py"],
     [("FileWrapper.__next__/rewind/lineno", PK + "utilities/filewrapper.py"),
      ("Block.__next__/rewind/lineno", PK + "utilities/filewrapper.py")],
     ["lines returned, lineno, file attribute"])

prop("C03", "Block extraction takes exactly the delimited lines and nothing else",
     "Extracting a block by start/end patterns returns the start line, everything up to and including the n-th end match, and leaves the source "
     "positioned on the line after it; delimiters can be dropped on request, and a start line that does not match yields an empty block and "
     "consumes nothing. An unterminated block raises an error unless end-of-file is allowed, in which case it holds all remaining lines. "
     "Blocks remember their source line numbers, including when extracted from another block.",
     ["histories", "inputs"], "every sequence of extractions, from files and nested from blocks, over every arrangement of start, end and other lines",
     "Every parser relies on it, but tests only see well-formed blocks of their samples; off-by-one consumption shows only with adjacent blocks, "
     "empty bodies, coinciding start/end patterns or end of file.",
     [PK + "utilities/filewrapper.py"],
     [("Block.from_re / Block.get_lines / Block.remove_bounds_re", PK + "utilities/filewrapper.py")],
     ["lines of the block, next line of the source, lineno"])

prop("C04", "Fortran binary records: any access history sees the right record",
     "For a file of Fortran sequential records, any history of next, skip, rewind and iteration moves over whole records: each read returns the "
     "complete payload of the record at the current position, in file order, decoded with the requested type. Within the file, skipping or rewinding by n is the "
     "same as n single moves, reading past the last record stops iteration, and the structured read maps its names to consecutive records.",
     ["histories", "inputs"], "every sequence of public reader operations over every list of records (any lengths, including empty)",
     "Tests read one fixed file with a few fixed call orders; the reader is a seek-based cursor whose errors depend on record lengths and on the "
     "order of operations.",
     [PK + "bin_parsers/fortran_bin_parser.py"],
     [("FortranBinaryReader.__next__/skip/rewind/get_dtype_dict", PK + "bin_parsers/fortran_bin_parser.py"),
      ("to_type", PK + "utilities/type_conv.py")],
     ["payloads returned, position after each call"])

prop("C05", "A .castep file parses to its runs and sections, independent of neighbours",
     "Parsing a .castep file returns one result per calculation run it contains, in file order, and each run holds exactly the data of the sections "
     "printed between its header and the next one. What a section contributes does not depend on which other sections precede or follow it or on "
     "unrecognised text and blank lines between them, and nothing leaks from one run to another. (A run in which nothing asked for was printed has no "
     "result; a section a run prints again, where one is expected, replaces the earlier one.)",
     ["inputs", "histories"], "every sequence of runs and output sections",
     "Unit tests parse each section alone and two whole sample files; a section parser that consumes one line too many, or keeps state, only shows "
     "for particular neighbours.",
     [PK + "parsers/castep_file_parser.py", PK + "utilities/filewrapper.py"],
     [("parse_castep_file main loop", PK + "parsers/castep_file_parser.py"),
      ("Block.from_re bounds of each section", PK + "parsers/castep_file_parser.py")],
     ["list of run dictionaries"])

prop("C06", "Filters remove exactly the unrequested categories from a .castep result",
     "For every filter combination, parsing a .castep file with that filter gives the full-filter result with just the data of unselected "
     "categories left out: what is selected has the same values as in the unfiltered parse, and unselected sections are skipped without "
     "disturbing the parsing of what follows. Adding a category to the filter never removes or alters data, apart from what belongs elsewhere "
     "once it is asked for: the initial configuration's data goes to the first geometry iteration, a step's memory estimate to its run, and "
     "pseudopotential strings are taken apart. The presets are nested, and ALL leaves out nothing but the regression-test data.",
     ["configurations", "inputs"], "every subset of filter categories and every sequence of sections",
     "Tests compare a few presets on a sample; there are 2^15 or more filters times section neighbourhoods, and skipping a block must consume exactly "
     "the block.",
     [PK + "parsers/castep_file_parser.py", PK + "utilities/utility.py"],
     [("Filters flags and `if Filters.X not in filters: continue` guards", PK + "parsers/castep_file_parser.py")],
     ["result dictionaries under different filters"])

prop("C07", "cell and param files: every keyword and block is read, with value and units",
     "Parsing a .cell or .param file returns every keyword with its value converted to the natural type (logical, integer, real, vector, string) "
     "paired with its units when given, and every block with all its rows, whatever the separators (colon, equals, blanks), letter case of keywords, "
     "comments, blank lines and order of entries. Block units lines, per-row options and atom labels are kept, and no entry affects another.",
     ["inputs"], "every sequence of keywords, blocks and comments in the documented syntax",
     "Tests cover one value per feature; the grammar is the product of block kinds, optional units, options, separators, comments and row counts.",
     [PK + "parsers/cell_param_file_parser.py"],
     [("parse_cell_param_file", PK + "parsers/cell_param_file_parser.py")],
     ["returned dictionary"])

prop("C08", "A parse depends only on the file's content and type",
     "For every supported file type, parsing the same content gives equal results whether it is given by path (string or path object), by open "
     "handle or in-memory stream, through the per-type function or the generic one (type from extension or given by name or callable), and "
     "regardless of the file's directory and of which files were parsed, or failed to parse, before. A handle given by the caller is parsed from its "
     "current position. A type that is not supported, or not told and not to be told from an extension, is refused with a value error before anything is read.",
     ["histories", "configurations", "inputs"], "every history of parses over all types, access routes and contents, including failing ones",
     "Tests parse each sample once through one route; state kept between calls (caches, compiled-pattern flags, mutable defaults) needs a particular "
     "history to show.",
     [PK + "parsers/__init__.py", PK + "cli/castep_outputs_main.py", PK + "utilities/utility.py", PK + "bin_parsers/__init__.py"],
     [("parse_single and parser registries", PK + "cli/castep_outputs_main.py"),
      ("file_or_path decorator", PK + "utilities/utility.py")],
     ["results of repeated parses"])

prop("C09", "Parsers close every file they open and never the caller's",
     "A file opened by a parser from a path is closed again by the time the parse returns or raises. A handle or stream passed in by the caller is "
     "still open and usable afterwards, for every parser, whether the parse succeeded or failed.",
     ["fault_sequences", "inputs"], "every file type and access route, and every point at which the content can be cut short or malformed",
     "No test inspects handle state; failures half-way through a file are not exercised.",
     [PK + "utilities/utility.py", PK + "utilities/filewrapper.py", PK + "cli/castep_outputs_main.py"],
     [("file_or_path", PK + "utilities/utility.py"), ("FileWrapper", PK + "utilities/filewrapper.py")],
     ["handle.closed, open descriptors"])

prop("C10", "The command line selects exactly the requested files",
     "Given seednames, include switches, files named among the words and files given explicitly for a type, the command line tool parses exactly the "
     "existing files of the included types for each seedname (numbered error files too) plus the named and explicit files, each once with the parser of its type. "
     "With no include switch (or the one for all) every type is included; types not included are never read unless a file is asked for by name; a file named "
     "among the words is parsed as the type of its extension and a file given explicitly as the type it was given for. Seednames may hold directories and dots.",
     ["configurations"], "every combination of seednames, include switches, explicit and named files and directory contents",
     "The tests never run the command line selection; it is a decision table over some twenty types with include and implicit modes.",
     [PK + "cli/args.py", PK + "cli/castep_outputs_main.py"],
     [("parse_args/args_to_dict", PK + "cli/args.py"), ("main", PK + "cli/castep_outputs_main.py")],
     ["keys and values of the output document"])

prop("C11", "Combined output holds every input's result, keyed by path, and is not clobbered",
     "Parsing several files together yields an empty result for none, the bare result for one file, and a mapping from each input's path to that "
     "file's own result for more; every format and destination (stdout, file, stream) receives the same document. Output to an existing file is "
     "appended after what was there, and when any input fails to parse the error is raised and nothing is written.",
     ["configurations", "histories", "fault_sequences"], "every multiset of inputs, output format, destination and failing input, repeated in any order",
     "Tests check one file at a time; aggregation, append behaviour and failure atomicity are untested.",
     [PK + "cli/castep_outputs_main.py", PK + "utilities/dumpers.py"],
     [("parse_all", PK + "cli/castep_outputs_main.py"), ("get_dumpers", PK + "utilities/dumpers.py")],
     ["contents of the output"])

prop("C12", "Serialised output keeps all data and is always valid in its format",
     "Any value a parser can produce (nested mappings with string, number or tuple keys, sequences, complex numbers, default-dictionaries) is "
     "written as a valid document in each output format, and reading that document back gives the normalised value: no entry lost or merged, keys and "
     "tuples converted by the documented rules and scalars unchanged. In testing mode a result is written flat, one entry for each scalar under the joined names leading to it. Normalising does not alter the value it is given.",
     ["inputs", "configurations"], "every nesting of the value kinds parsers produce, in every format",
     "Tests dump a few sample results and compare with stored files; key collisions, nesting under sequences and rare kinds are not reached.",
     [PK + "utilities/dumpers.py", PK + "utilities/datatypes.py", PK + "utilities/utility.py"],
     [("json_safe/normalise/flatten_dict/normalise_key", PK + "utilities/utility.py"), ("dumpers", PK + "utilities/dumpers.py")],
     ["re-parsed documents"])

prop("C13", "Predicted output files follow the decision table of cell and param settings",
     "The predicted set of files for a calculation is determined by the task and the param/cell options alone: for each combination it contains "
     "exactly the files the options enable and the task produces, named after the seedname. The prediction is the same whether settings are given as files or "
     "as parsed dictionaries, is insensitive to letter case of option values, and is repeatable.",
     ["configurations", "inputs"], "every combination of task, write switches, spectral/phonon/devel options and pseudopotential sets",
     "Tests check around ten combinations; the function is a decision table over dozens of interacting options.",
     [PK + "tools/get_generated_files.py"],
     [("get_generated_files", PK + "tools/get_generated_files.py")],
     ["returned list of names"])

prop("C14", "MD, geom and ts trajectories: every frame keeps all its data in order",
     "Parsing a .md, .geom or .ts file returns one entry per printed step, in order, and each entry holds that step's own time, energies, "
     "temperature/pressure, cell, stress and every ion's position, velocity and force under the right species and index. Optional blocks may come and "
     "go between steps without affecting others.",
     ["inputs"], "every trajectory: number of steps, ions and species, and presence of each optional quantity per step",
     "Tests hold one sample per type with a fixed ensemble; loss or carry-over of rows depends on which optional rows each step has.",
     [PK + "parsers/md_geom_file_parser.py", PK + "parsers/ts_file_parser.py"],
     [("parse_md_geom_frame", PK + "parsers/md_geom_file_parser.py"), ("parse_ts_file", PK + "parsers/ts_file_parser.py")],
     ["returned frames"])

prop("C15", "bands, phonon and phonon_dos files: all k/q-points, branches and ions kept",
     "Parsing a .bands, .phonon or .phonon_dos file returns the header values, the lattice and ion tables, and every k- or q-point with its own weight, position, "
     "energies or frequencies (per spin), intensities and eigenvectors in file order; densities keep one value per row and species.",
     ["inputs"], "every number of k/q-points, spins, bands, branches, ions and optional columns",
     "Tests use one small sample per type; grouping of rows by spin, branch and ion depends on the counts.",
     [PK + "parsers/bands_file_parser.py", PK + "parsers/phonon_file_parser.py", PK + "parsers/phonon_dos_file_parser.py",
      PK + "parsers/parse_utilities.py"],
     [("parse_bands_file", PK + "parsers/bands_file_parser.py"), ("parse_phonon_file", PK + "parsers/phonon_file_parser.py"),
      ("parse_phonon_dos_file", PK + "parsers/phonon_dos_file_parser.py")],
     ["returned dictionaries"])

prop("C16", "Grid, structure-factor, shock, coupling, error and TDDFT files kept in full",
     "Parsing a formatted grid file, .xrd_sf, .hug, .epme, .err or .tddft file returns its documented header values and every data row's columns under the "
     "documented names, in file order and complete, for any number of rows, spins, columns or groups.",
     ["inputs"], "every number of rows, columns, spin components and groups",
     "Tests use one small sample per type (none for some); row grouping depends on counts.",
     [PK + "parsers/parse_fmt_files.py", PK + "parsers/xrd_sf_file_parser.py", PK + "parsers/hug_file_parser.py",
      PK + "parsers/epme_file_parser.py", PK + "parsers/err_file_parser.py", PK + "parsers/tddft_file_parser.py"],
     [("parse_*_file", PK + "parsers/")],
     ["returned dictionaries"])

prop("C17", "efield, elastic and magres files: all tensors and tables kept",
     "Parsing an .efield, .elastic or .magres file returns its header, lattice and ion tables, units and every tensor with its complete matrix "
     "under the right quantity, ion or pair of ions, in file order, for any number of ions, oscillators and quantities.",
     ["inputs"], "every number of ions, frequencies and present quantities, old and new layouts",
     "Tests use one sample per type; tensor assembly depends on the number and order of rows.",
     [PK + "parsers/efield_file_parser.py", PK + "parsers/elastic_file_parser.py", PK + "parsers/magres_file_parser.py"],
     [("parse_*_file", PK + "parsers/")],
     ["returned dictionaries"])

prop("C18", "Binary potential and coupling files decode to what was written",
     "Parsing a .cst_esp or .epme_bin file returns the header values and every array element written, in the right position, for any grid, spin count, "
     "k/q-point, band and mode counts, and optional meta-GGA part.",
     ["inputs"], "every combination of dimensions and optional records",
     "Tests use a single file per type; index bookkeeping only shows with distinct dimensions.",
     [PK + "bin_parsers/cst_esp_file_parser.py", PK + "bin_parsers/epme_bin_parser.py"],
     [("parse_cst_esp_file", PK + "bin_parsers/cst_esp_file_parser.py"), ("parse_epme_bin_file", PK + "bin_parsers/epme_bin_parser.py")],
     ["returned dictionaries"])

prop("C19", "Numbers and logicals are read exactly as Fortran writes them",
     "Every numeric token Fortran or a user writes (integers, signed decimals, E exponents in either case, leading or trailing dot, fractions where allowed) "
     "is recognised and converted to that exact value, logicals are recognised in their long and short forms, and anything else stays a string. "
     "Type inference picks logical, integer, real, vector or string consistently with the conversion, so converting by the inferred type never fails.",
     ["inputs"], "every token and vector of tokens in the accepted numeric grammar",
     "Tests contain a few literals; the grammar of signs, dots and exponents is a product, and misreads are silent.",
     [PK + "utilities/type_conv.py", PK + "utilities/castep_res.py"],
     [("to_type/determine_type/fix_data_types", PK + "utilities/type_conv.py"), ("number patterns", PK + "utilities/castep_res.py")],
     ["returned Python values"])

prop("C20", "Pseudopotential strings decompose into exactly their documented parts",
     "A pseudopotential specification (on-the-fly string, library name, file) found in a .castep or .cell file is decomposed into its documented parts, each present only if written: "
     "core radii, cutoffs, projectors with their orbital, type, options and values, local channel, debug and other flags, with the original string kept.",
     ["inputs"], "every combination of optional parts and number of projectors in the on-the-fly grammar",
     "Tests hold a few strings; the grammar is a product of optional parts.",
     [PK + "parsers/castep_file_parser.py", PK + "utilities/castep_res.py"],
     [("_process_pspot_string", PK + "parsers/castep_file_parser.py"), ("PSPOT_RE/PSPOT_PROJ_RE", PK + "utilities/castep_res.py")],
     ["pspot dictionaries"])

prop("C21", "Cut-short or inconsistent input is reported, never returned as complete",
     "When a file ends inside a delimited section or a binary record, or holds fewer rows or records than it declares (phonon branches and eigenvectors, "
     "coupling arrays), or a grid row does not match the declared columns, parsing raises an error instead of returning a result. The error is an ordinary exception and leaves the library usable.",
     ["fault_sequences", "crash_points", "inputs"], "every cut point inside a delimited section or record, and every single-row loss in counted sections",
     "Tests parse complete inputs only.",
     [PK + "utilities/filewrapper.py", PK + "parsers/phonon_file_parser.py", PK + "parsers/parse_fmt_files.py",
      PK + "bin_parsers/epme_bin_parser.py", PK + "parsers/castep_file_parser.py"],
     [("OSError on unterminated block", PK + "utilities/filewrapper.py")],
     ["exception or result"])

prop("C22", "MD and geometry-optimisation steps of a .castep file are kept apart and complete",
     "In a molecular-dynamics or geometry-optimisation run every iteration printed in the .castep file becomes one entry, in order, holding exactly the data printed in "
     "that iteration (cell, positions, SCF, energies, forces, stresses, step summaries), with the initial configuration data in the first entry and the "
     "final summary outside. No iteration contains data of another.",
     ["inputs", "histories"], "every number of iterations and every selection and order of sections within each",
     "Tests have one or two iterations with fixed content; leakage between iterations needs sections that come and go.",
     [PK + "parsers/castep_file_parser.py"],
     [("_process_md / _process_geom / parse_castep_file", PK + "parsers/castep_file_parser.py")],
     ["memory and iteration lists in the result"])

prop("C23", "Every table of a .castep file is read completely, whatever its size",
     "For every kind of table or listing in a .castep file (atoms, forces, stresses, populations, k-points, symmetry, phonons, elastic and optical tensors, "
     "NMR, solvation, timings and so on) the parsed result has one entry per printed row, carrying that row's values under its own label, for "
     "any number of rows, species and label forms.",
     ["inputs"], "every section kind, row count, label form (custom species, labelled atoms, two-digit indices) and value sign or width",
     "Tests hold one sample per section; patterns that fail for other labels, signs or indices drop rows silently.",
     [PK + "parsers/castep_file_parser.py", PK + "utilities/castep_res.py"],
     [("_process_* section parsers", PK + "parsers/castep_file_parser.py")],
     ["result dictionaries"])

prop("C24", "Every SCF cycle is read in full and in order",
     "Each SCF section of a .castep file becomes a list with one entry per printed cycle, in order, holding that cycle's energies, Fermi energy, timer and density-mixing or "
     "constraint data; the detail of a cycle printed at higher verbosity (bands per block, kinetic eigenvalues, the eigenvalues of each round of "
     "minimisation, the terms of the energy) is attached to that cycle and to no other. Notes follow the row of their cycle, detail precedes it.",
     ["inputs", "histories"], "every number and order of cycles, notes and detail rows",
     "Tests have few samples; association of detail with cycles depends on order.",
     [PK + "parsers/castep_file_parser.py"],
     [("_process_scf", PK + "parsers/castep_file_parser.py")],
     ["scf lists in the result"])

prop("C25", "devel_code and other free-form blocks nest to exactly what is written",
     "A devel_code block is returned as the nested mapping of its sections (each with its keyword values and its bare data in order), its own keyword "
     "values and bare words, in any number and order, whether found in a cell, a param or a .castep file, with values converted like ordinary keywords. "
     "A section written in several pieces is one section, and a value or word sharing a section's name does not replace it.",
     ["inputs"], "every arrangement of sections, keyword forms and bare words",
     "Tests have one sample; arrangements are combinatorial.",
     [PK + "parsers/cell_param_file_parser.py"],
     [("_parse_devel_code_block", PK + "parsers/cell_param_file_parser.py")],
     ["devel_code dictionaries"])

prop("C26", "Diagnostics are truthful, come at the level asked for, and change nothing",
     "A parse gives the same result, and the command line the same output, whatever the log level. Messages go to the log (standard error for the "
     "command line), never into the output, and only those of the level asked for (WARNING unless told) and above. What is found in a .castep, .cell or .param file is "
     "reported at INFO and a trajectory without a header at WARNING, under the name the file was opened by, whatever characters it holds. At DEBUG the .castep "
     "parser echoes the lines it meets outside the sections, in file order, each with its true line number; what it says of a section has a line number from there on.",
     ["configurations", "inputs", "histories"], "every log level, file name, access route, and every sequence of .castep sections and other text",
     "Tests run at one level and never look at the log; a result that depends on the level, a line number that drifts after some section or a name that breaks the "
     "message needs a particular file.",
     [PK + "utilities/utility.py", PK + "utilities/filewrapper.py", PK + "cli/castep_outputs_main.py", PK + "parsers/castep_file_parser.py",
      PK + "parsers/md_geom_file_parser.py"],
     [("log_factory", PK + "utilities/utility.py"), ("parse_single/parse_all/run log levels", PK + "cli/castep_outputs_main.py"),
      ("debug echo of the main loop", PK + "parsers/castep_file_parser.py")],
     ["log records, standard error, results"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
