"""C18: binary files against spec/Binary.tla."""

from harness.formats import docs_from, replay
from harness.t_binary import T


def run(chk):
    from castep_outputs.bin_parsers import parse_cst_esp_file, parse_epme_bin_file

    inv = {"invariants": ["Shape", "Emit"]}
    for fmt, parse in (("cst_esp", parse_cst_esp_file), ("epme_bin", parse_epme_bin_file)):
        docs = docs_from(chk, "Binary", {"Format": fmt, "MaxN": chk.pick(3, 4), "Faults": False}, **inv)
        chk.note(f"{fmt}_documents", len(docs))
        replay(chk, docs, T, parse, what=f".{fmt}", reps=chk.pick(6, 60), binary=True)
        docs = docs_from(chk, "Binary", {"Format": fmt, "MaxN": chk.pick(9, 14), "Faults": False},
                         simulate=chk.pick(12, 120), depth=1000, **inv)
        replay(chk, docs, T, parse, what=f".{fmt}", binary=True)
