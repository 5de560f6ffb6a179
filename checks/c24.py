"""C24: SCF cycles and their detail against spec/Scf.tla."""

from harness.formats import docs_from, replay
from harness.t_castep import T

STEP = """
================================================================================
 Starting MD iteration          1 ...
================================================================================

"""
END = """
--------------------------------------------------------------------------------
 ... finished MD iteration          1
--------------------------------------------------------------------------------
"""


def run(chk):
    import io

    from castep_outputs import parse_castep_file
    from castep_outputs.parsers.castep_file_parser import Filters

    def alone(src):
        (only,) = parse_castep_file(src, Filters.SCF)
        if set(only) != {"scf"}:
            raise AssertionError(f"SCF cycles gave {sorted(only)}")
        return only["scf"]

    def in_step(src):
        (only,) = parse_castep_file(io.StringIO(STEP + src.read() + END), Filters.ALL)
        if set(only) != {"md"} or len(only["md"]) != 1 or set(only["md"][0]) != {"scf"}:
            raise AssertionError(f"SCF cycles of an MD step gave {only}"[:300])
        return only["md"][0]["scf"]

    inv = {"invariants": ["OnePerCycle", "CyclesCounted", "Emit"], "properties": ["TablesStay", "CyclesStay", "DetailNext"]}
    for tables, cycles, blocks, rounds, bands, terms, notes in ((2, 3, 0, 0, 1, 0, 2), (1, 2, 2, 2, 2, 0, 0), (1, 3, 1, 1, 1, 0, 1), (1, 2, 0, 0, 1, 2, 0),
                                                                (1, 3, 1, 1, 1, 1, 1)):
        consts = {"MaxTables": tables, "MaxCycles": cycles, "MaxBlocks": blocks, "MaxRounds": rounds, "MaxBands": bands, "MaxTerms": terms, "MaxNotes": notes}
        docs = docs_from(chk, "Scf", {**consts, "Fixed": {True, False}}, **inv)
        chk.bump("enumerated_documents", len(docs))
        n = chk.pick(1500, 30000)
        if len(docs) > n:
            docs = chk.rng.sample(docs, n)
            chk.note("sampled_documents", True)
        replay(chk, docs, T, alone, what="SCF cycles", reps=1, spread=True)
        replay(chk, docs[::4], T, in_step, what="SCF cycles in an MD step", spread=True)
    docs = docs_from(chk, "Scf", {"MaxTables": 3, "MaxCycles": 40, "MaxBlocks": 5, "MaxRounds": 4, "MaxBands": 12, "MaxTerms": 14, "MaxNotes": 60, "Fixed": {True, False}},
                     spec="SpecRandom", simulate=chk.pick(60, 1500), depth=2000, **inv)
    chk.note("long_documents", len(docs))
    replay(chk, docs, T, alone, what="long SCF", spread=True)
    replay(chk, docs, T, in_step, what="long SCF in an MD step", spread=True)
