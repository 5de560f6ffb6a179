"""C17: .efield/.elastic/.magres against spec/Tensors.tla."""

from harness.formats import docs_from, replay
from harness.t_tensors import T


def run(chk):
    from castep_outputs.parsers import parse_efield_file, parse_elastic_file, parse_magres_file

    def drop_blank_key(val):
        val.pop("", None)
        return val

    def unused(u):          # counts only a misreading would use
        return u[1] == "n"

    inv = {"invariants": ["RowsKept", "Emit"]}
    for fmt, parse, ions, rows, secs in (("efield", parse_efield_file, 2, 2, 2), ("elastic", parse_elastic_file, 3, 0, 2),
                                         ("magres", parse_magres_file, 3, 0, 2)):
        docs = docs_from(chk, "Tensors", {"Format": fmt, "MaxIons": ions, "MaxRows": rows, "MaxSecs": secs, "Faults": False}, limit=chk.pick(8000, None), **inv)
        chk.note(f"{fmt}_documents", len(docs))
        replay(chk, docs, T, parse, what=f".{fmt}", reps=max(1, chk.pick(600, 6000) // len(docs)), norm=drop_blank_key,
               allow_unused=unused)
        docs = docs_from(chk, "Tensors", {"Format": fmt, "MaxIons": chk.pick(14, 25), "MaxRows": 30, "MaxSecs": 9, "Least": 11, "Faults": False},
                         simulate=chk.pick(30, 300), depth=1000, **inv)
        replay(chk, docs, T, parse, what=f".{fmt}", norm=drop_blank_key, allow_unused=unused)
