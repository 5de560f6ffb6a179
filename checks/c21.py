"""C21: documents cut inside a section, or disagreeing with their own counts, enumerated by the format models."""

from harness import castep
from harness.formats import docs_from, replay


def run(chk):
    from castep_outputs import parsers as p
    from castep_outputs.bin_parsers import parse_cst_esp_file, parse_epme_bin_file

    from checks.c16 import parsers as table_parsers
    from harness import t_binary, t_inputs, t_spectra, t_tables, t_tensors

    def go(module, consts, templates, parse, what, limit=None, **kw):
        docs = docs_from(chk, module, {**consts, "Faults": True}, invariants=["Emit"], limit=chk.pick(limit, None))
        chk.note(f"{what}_faults", len(docs))
        replay(chk, docs, templates, parse, what=what, **kw)

    for fmt, parse in (("phonon", p.parse_phonon_file), ("phonon_dos", p.parse_phonon_dos_file)):
        go("Spectra", {"Format": fmt, "MaxPts": 2, "MaxIons": 2}, t_spectra.T, parse, f".{fmt}", limit=2500)
    for fmt, parse in table_parsers().items():
        if fmt in ("den_fmt", "chdiff_fmt", "pot_fmt", "elf_fmt", "tddft"):
            go("Tables", {"Format": fmt, "MaxRows": 3 if fmt != "tddft" else 2, "MaxGroups": 2}, t_tables.T, parse, f".{fmt}", limit=1000)
    for fmt, parse in (("efield", p.parse_efield_file), ("elastic", p.parse_elastic_file), ("magres", p.parse_magres_file)):
        go("Tensors", {"Format": fmt, "MaxIons": 2, "MaxRows": 3, "MaxSecs": 2}, t_tensors.T, parse, f".{fmt}", limit=1500)
    go("Binary", {"Format": "epme_bin", "MaxN": 2}, t_binary.T, parse_epme_bin_file, ".epme_bin", limit=1500, binary=True)
    go("Binary", {"Format": "cst_esp", "MaxN": chk.pick(3, 4)}, t_binary.T, parse_cst_esp_file, ".cst_esp", limit=1500, binary=True)

    # .cell and .param files which end inside a block
    for kinds, items, rows in (({"numbers", "species"}, 1, 2), ({"positions", "ionic", "nonlinear"}, 1, 1), ({"hubbard", "sedc", "symmetry", "xcdef", "pots"}, 1, 1),
                               ({"devel"}, 1, 1), ({"keyword", "pots", "symmetry"}, 2, 1)):
        docs = docs_from(chk, "InputFiles", {"Entries": kinds, "MaxItems": items, "MaxRows": rows, "Faults": True}, invariants=["Emit"], limit=chk.pick(200, 4000))
        chk.note("input_file_faults", chk.notes.get("input_file_faults", 0) + len(docs))
        for parse, ext in ((p.parse_cell_file, ".cell"), (p.parse_param_file, ".param")):
            replay(chk, docs, t_inputs.T, parse, what=ext, pools=t_inputs.POOLS)
    # .castep files cut inside a section, or a step, of any kind
    for size, length, iterations, n in ((chk.pick("few", "wide"), 1, 0, None), ("few", 8, 3, chk.pick(150, 3000))):
        docs = castep.docs(chk, castep.KINDS, size=size, length=length, iterations=iterations, faults=True, simulate=n,
                           gaps=("none",) if n is None else castep.GAPS, limit=chk.pick(2500, 40000))
        chk.note(f".castep_faults_{length}", len(docs))
        castep.replay(chk, docs, what=".castep")
