"""C20: pseudopotential strings against spec/Pspot.tla."""

import io
import json

from harness.formats import docs_from, replay
from harness.t_pspot import T

OTHERS = ["C19", "H_00.usp", "Fe_C19_PBE_OTF.usp", "../lib/O_00.recpot", "NCP19", "3|x"]
REPORT = """
   ============================================================
   | Pseudopotential Report - Date of generation 14-07-2023   |
   ------------------------------------------------------------
   | Element: Mn Ionic charge: 15.00 Level of theory: LDA     |
   | Atomic Solver: Koelling-Harmon                           |
   |                                                          |
   | No charge augmentation                                   |
   | No partial core correction                               |
   ------------------------------------------------------------
   | %-56s |
   ------------------------------------------------------------
   |      Author: Chris J. Pickard, Cambridge University      |
   ============================================================

"""


def run(chk):
    from castep_outputs import parse_castep_file, parse_cell_file

    def label():
        return chk.rng.choice(["Fe", "H", "O:tag", "Cl", "Cu:2"])

    def others(spec):
        """Neighbouring species, which must keep their own specification."""
        a, b = chk.rng.sample(OTHERS[:5], 2)
        return [("Zn", a)] * chk.rng.randint(0, 1), [("Zr", b)] * chk.rng.randint(0, 1)

    def check(rows, spec, got):
        for s, pot in rows:
            if got.get(s) != pot:
                raise AssertionError(f"{s}'s pseudopotential {pot!r} became {got.get(s)!r}")
        if set(got) != {spec} | {s for s, _ in rows}:
            raise AssertionError(f"species {sorted(got)}")
        return got[spec]

    def in_cell(src):
        spec, (pre, post) = label(), others(None)
        rows = [*pre, (spec, src.read()), *post]
        text = "%BLOCK species_pot\n" + "".join(f"  {s}  {p}\n" for s, p in rows) + "%ENDBLOCK species_pot\n"
        return check(pre + post, spec, parse_cell_file(io.StringIO(text))[0]["species_pot"])

    def in_castep(src):
        spec, (pre, post) = label(), others(None)
        rows = [*pre, (spec, src.read()), *post]
        text = ("\n                                  Files used for pseudopotentials:\n"
                + "".join(f"                                   {s:>3} {p}\n" for s, p in rows) + "\n")
        got = parse_castep_file(io.StringIO(text))[0]["species_properties"]
        return check(pre + post, spec, {k: v["pseudopot"] for k, v in got.items()})

    def in_report(src):
        text = REPORT % f'"{src.read()}"'
        return parse_castep_file(io.StringIO(text))[0]["pspot_detail"][0].get("detail")

    inv = {"invariants": ["OnlyWritten", "GroupsKept", "Emit"], "properties": ["Stays"]}
    every = {"local", "radii", "shell", "type", "proj", "tail"}
    for free, groups, proj, lst in (({"local", "radii", "tail"}, 1, 1, chk.pick(1, 2)), ({"type", "proj"}, 1, chk.pick(1, 2), 0),
                                    ({"type", "shell"}, 2, chk.pick(1, 2), 0), ({"shell"}, chk.pick(3, 4), 2, 0)):
        docs = docs_from(chk, "Pspot", {"Free": free, "MaxGroups": groups, "MaxProj": proj, "MaxList": lst}, **inv)
        chk.note("documents of " + "+".join(sorted(free)), len(docs))
        n = chk.pick(2000, 20000)
        if len(docs) > n:
            docs = chk.rng.sample(docs, n)
            chk.note("sampled_documents", True)
        replay(chk, docs, T, in_cell, what="species_pot of a .cell", reps=max(1, chk.pick(400, 6000) // len(docs)))
        replay(chk, docs, T, in_castep, what="pseudopotentials of a .castep", reps=max(1, chk.pick(400, 6000) // len(docs)))
    docs = docs_from(chk, "Pspot", {"Free": every, "MaxGroups": 5, "MaxProj": 3, "MaxList": 3}, simulate=chk.pick(60, 800), depth=40, **inv)
    chk.note("long_documents", len(docs))
    for parse, what in ((in_cell, ".cell"), (in_castep, ".castep")):
        replay(chk, docs, T, parse, what=f"long {what} pseudopotential")
    # listed under known_findings.json: the string of a report is left out
    reports = [{**json.loads(d), "dev": [["pspot-report-detail", None]]} for d in docs[:chk.pick(50, 500)]]
    replay(chk, reports, T, in_report, what="pseudopotential report", carry=False)
