"""C16: table-like files against spec/Tables.tla."""

from harness.formats import docs_from, replay
from harness.t_tables import T


def parsers():
    from castep_outputs import parsers as p
    return {"den_fmt": p.parse_den_fmt_file, "chdiff_fmt": p.parse_chdiff_fmt_file, "pot_fmt": p.parse_pot_fmt_file,
            "elf_fmt": p.parse_elf_fmt_file, "xrd_sf": p.parse_xrd_sf_file, "hug": p.parse_hug_file,
            "epme": p.parse_epme_file, "err": p.parse_err_file, "tddft": p.parse_tddft_file}


def run(chk):
    inv = {"invariants": ["RowsKept", "Emit"]}
    for fmt, parse in parsers().items():
        docs = docs_from(chk, "Tables", {"Format": fmt, "MaxRows": 3 if fmt != "tddft" else 2, "MaxGroups": 2, "Faults": False}, **inv)
        chk.note(f"{fmt}_documents", len(docs))
        replay(chk, docs, T, parse, what=f".{fmt}", reps=max(1, min(chk.pick(40, 400), chk.pick(600, 6000) // len(docs))))
        docs = docs_from(chk, "Tables", {"Format": fmt, "MaxRows": chk.pick(30, 60), "MaxGroups": 14 if fmt == "tddft" else 4, "Faults": False},
                         simulate=chk.pick(30, 300), depth=1000, **inv)
        replay(chk, docs, T, parse, what=f".{fmt}")
        docs = docs_from(chk, "Tables", {"Format": fmt, "MaxRows": chk.pick(60, 200), "MaxGroups": 14 if fmt == "tddft" else 4,
                                         "Least": 13 if fmt == "tddft" else chk.pick(31, 101), "Faults": False},
                         simulate=chk.pick(30, 300), depth=2000, **inv)
        replay(chk, docs, T, parse, what=f".{fmt}")
