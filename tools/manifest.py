"""Source of MANIFEST.json: run `python3 tools/manifest.py` to rewrite it."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPLAY = "TLC enumerates and samples spec/%s.tla; every behaviour replayed into the real parser"

NOTES = {
    "C01": ("TLA+ model spec/MDGeomLazy.tla checked with TLC; its state graph replayed as operation histories on the lazy reader",
            "Every transition of the model at the bound is executed on real files, plus long random walks; eager parse of the same file is the oracle."),
    "C02": ("TLA+ model spec/Lines.tla checked with TLC; edge tours and random walks of its graph replayed on FileWrapper and Block",
            "All texts over the line classes up to the bound and every transition of each; exact lines, numbers and end of input."),
    "C03": ("TLA+ model spec/Lines.tla (extraction actions) checked with TLC; its graph replayed on Block.from_re/get_lines/remove_bounds_re",
            "All arrangements of start/end/other lines up to the bound, every extraction from every cursor position, nested extraction included."),
    "C04": ("TLA+ model spec/Records.tla checked with TLC; edge tours and random walks replayed on FortranBinaryReader",
            "All record lists up to the bound, every transition; moves before the first record or past the end are unconstrained."),
    "C05": ("TLA+ model spec/Castep.tla of a .castep file as runs of sections, checked with TLC; every ordered pair of section kinds and sampled long files replayed into the real parser",
            "All ordered pairs of the 78 kinds modelled (with all gaps when thorough) and random files of up to 60 sections over several runs; recorded findings modelled exactly."),
    "C06": ("TLA+ model spec/Castep.tla with one reader per filter, checked with TLC; documents replayed into the real parser under the filters the readers stand for",
            "Every kind of section and every ordered pair under single categories and complements, the presets, and random filters on random long files."),
    "C07": (REPLAY % "InputFiles", "Every kind of keyword value and block row within the bound, alone and mixed; separators, case, comments and number spellings vary. Recorded known findings are modelled exactly."),
    "C08": ("TLA+ model spec/Session.tla checked with TLC; edge tours and random walks of its graph replayed as sessions of real parses",
            "Every ordered pair of (type, route, outcome) steps of the model; concrete types drawn per walk, contents generated; a fresh interpreter's outcome per content is the oracle."),
    "C09": ("TLA+ model spec/Session.tla with failing reads checked with TLC; its sessions replayed with every open file observed, plus cuts of every sample",
            "After every parse, whatever its outcome, all files the library opened must be closed and the caller's open and readable."),
    "C10": ("TLA+ decision model spec/Cli.tla explored with TLC; every directory and command line it makes is run through the real command line tool",
            "Every directory and command line within the bound for one seedname, sampled for two; the files read, the keys and each file's result must be the model's selection."),
    "C11": ("TLA+ model spec/Output.tla checked with TLC; edge tours of its graph replayed as successive runs of parse_all and the command line tool",
            "Every sequence of inputs (parsing, failing, missing) and destination within the bound; output documents read back in every format."),
    "C12": ("TLC enumerates and samples values in spec/Values.tla with what normalising and the JSON and YAML writers must make of them; every one replayed into the real functions and dumpers",
            "Every nesting of the value kinds within the bound plus sampled larger values, in all formats, read back and compared; keys are the kinds parsers use, numbers finite."),
    "C13": ("TLA+ decision table spec/Generated.tla explored with TLC (all single options, random large sets, all pairs when thorough); each replayed on get_generated_files",
            "Predictions from dictionaries, from files and from other interpreters (hash seeds) must equal the table's set."),
    "C14": (REPLAY % "Trajectory", "All frame layouts within the bound plus sampled longer files; values are fresh per row, so loss, carry-over and swaps all show."),
    "C15": (REPLAY % "Spectra", "All dimension and option combinations within the bound plus sampled larger files. One recorded known finding is modelled exactly."),
    "C16": (REPLAY % "Tables", "All dimension and option combinations within the bound plus sampled larger files. One recorded known finding is modelled exactly."),
    "C17": (REPLAY % "Tensors", "All section and row combinations within the bound plus sampled larger files. Recorded known findings are modelled exactly."),
    "C18": (REPLAY % "Binary", "All dimension combinations within the bound plus sampled larger ones; grids of at least two planes."),
    "C19": ("TLC enumerates spec/Numerals.tla (automaton and grammar proved equal on all strings within the bound); every string replayed into the regular expressions and converters",
            "All strings over the character classes up to the bound, with exact rational values; texts mixing tokens and embedded tokens sampled."),
    "C20": (REPLAY % "Pspot", "Every form of each part within the bound plus sampled long strings, in .cell, .castep listings and on their own. One recorded known finding is modelled exactly."),
    "C21": ("TLC enumerates the faulty documents of spec/{Spectra,Tables,Tensors,Binary,InputFiles,Castep}.tla; every one replayed into the real parser",
            "Every cut point inside a section or record and every single lost row of each document within the bound must raise."),
    "C22": ("TLA+ model spec/Castep.tla with MD steps and geometry iterations, checked with TLC; every arrangement within the bound replayed into the real parser",
            "Every kind of section before, in and after each kind of step; arrangements of the usual sections over two and three steps; random runs of up to 14 steps. One recorded finding is modelled exactly."),
    "C23": ("TLC enumerates every form of each of the 78 kinds of section of spec/CastepSections.tla within the bound, and long ones; every one replayed into the real parser",
            "Every printed value must arrive under its label, and every value expected must have been printed; whole files embedded by test builds included. Recorded findings are modelled exactly."),
    "C24": ("TLA+ state machine spec/Scf.tla of SCF tables, checked with TLC; every behaviour within the bounds and sampled long ones replayed into the real parser",
            "Tables, notes and detail in every order the model allows, on their own and inside an MD step."),
    "C25": (REPLAY % "InputFiles", "All devel_code layouts within the bound plus sampled longer ones; one level of sections, as the format has."),
    "C26": ("TLA+ model spec/Diagnostics.tla checked with TLC, edge tours of its graph replayed as parses at every log level; recorded debug logs checked with TLC as traces of spec/Echo.tla",
            "Every level, kind of content, kind of file name and route; echoed lines of generated .castep files of up to 12 sections must be a behaviour of the reader model."),
}

props = [json.loads(line) for line in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (ROOT / "checks" / f"{i.lower()}.py").exists():
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} thorough",
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
(ROOT / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "true", "checks": checks,
                                                "not_applicable": na}, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not")
