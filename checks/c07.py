"""C07: .cell and .param files against spec/InputFiles.tla."""

from harness.formats import docs_from, replay
from harness.t_inputs import POOLS, T

KINDS = (("keyword", 2), ("numbers", 1), ("species", 1), ("positions", 1), ("ionic", 1), ("nonlinear", 1), ("hubbard", 1),
         ("sedc", 1), ("symmetry", 1), ("xcdef", 1), ("pots", 1))


def run(chk):
    from castep_outputs import parse_cell_file, parse_param_file

    inv = {"invariants": ["OnePerEntry", "Emit"], "properties": ["NeverAltered"]}
    parsers = ((parse_cell_file, ".cell"), (parse_param_file, ".param"))
    for kind, items in KINDS:
        docs = docs_from(chk, "InputFiles", {"Entries": {kind}, "Faults": False, "MaxItems": items, "MaxRows": 3}, **inv)
        chk.note(f"{kind}_documents", len(docs))
        reps = max(1, chk.pick(400, 6000) // len(docs))
        n = chk.pick(1200, len(docs))
        if len(docs) > n:
            docs = chk.rng.sample(docs, n)
            chk.note("sampled_documents", True)
        parse, ext = parsers[0 if kind != "xcdef" else 1]
        replay(chk, docs, T, parse, what=f"{kind} in {ext}", pools=POOLS, reps=reps)
    every = {k for k, _ in KINDS}
    for n, (parse, ext) in enumerate(parsers):
        docs = docs_from(chk, "InputFiles", {"Entries": every, "Faults": False, "MaxItems": 6, "MaxRows": 4}, simulate=chk.pick(100, 1500), depth=40, **inv)
        replay(chk, docs, T, parse, what=f"mixed entries in {ext}", pools=POOLS)
