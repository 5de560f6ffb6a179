"""C25: devel_code blocks against spec/InputFiles.tla."""

from harness.formats import docs_from, replay
from harness.t_inputs import POOLS, T, T_CASTEP


def run(chk):
    from castep_outputs import parse_cell_file, parse_param_file

    inv = {"invariants": ["OnePerEntry", "Emit"], "properties": ["NeverAltered"]}
    docs = docs_from(chk, "InputFiles", {"Entries": {"devel"}, "Faults": False, "MaxItems": 1, "MaxRows": chk.pick(2, 3)}, **inv)
    chk.note("devel_documents", len(docs))
    n = chk.pick(2500, len(docs))
    if len(docs) > n:
        docs = chk.rng.sample(docs, n)
        chk.note("sampled_documents", True)
    for parse, ext in ((parse_cell_file, ".cell"), (parse_param_file, ".param")):
        replay(chk, docs, T, parse, what=f"devel_code in {ext}", pools=POOLS)
        long = docs_from(chk, "InputFiles", {"Entries": {"devel", "keyword"}, "Faults": False, "MaxItems": 3, "MaxRows": 8},
                         simulate=chk.pick(60, 800), depth=40, **inv)
        replay(chk, long, T, parse, what=f"long devel_code in {ext}", pools=POOLS)

    from castep_outputs import parse_castep_file
    replay(chk, docs, T_CASTEP, lambda f: [{"devel_code": parse_castep_file(f)[0]["options"]["devel_code"]}], what="devel_code in .castep", pools=POOLS)
