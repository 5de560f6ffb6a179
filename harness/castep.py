"""Replaying the .castep files of spec/Castep.tla into the real parser, under every filter the model followed."""

from __future__ import annotations

import io
import json

from harness import core
from harness.doc import Document
from harness.t_castep import T

CATEGORIES = ["BS", "CELL", "CHEM_SHIELDING", "DELTA_SCF", "DIPOLE", "ELASTIC", "ELF", "FINAL_CONFIG", "FORCE", "GEOM_OPT", "MD", "MD_SUMMARY",
              "OPTICS", "PARAMETERS", "PHONON", "POLARISATION", "POPN_ANALYSIS", "POSITION", "PSPOT", "SCF", "SOLVATION", "SPECIES_PROPS", "SPIN",
              "STRESS", "SYMMETRIES", "SYS_INFO", "TDDFT", "TEST_EXTRA_DATA", "THERMODYNAMICS", "TSS"]
KINDS = ["build", "started", "final", "parallel", "continuation", "warnbox", "warn", "memory", "title", "options", "pair", "dftd", "spins",
         "targetstress", "kpoints", "klist", "efield", "quantisation", "psenergy", "mass", "quadrupole", "pots", "report", "pspdebug", "scf",
         "energies", "solve", "dedlne", "bsc", "linemin", "occupancies", "spindensity", "autosolv", "cell", "supercell", "symmetry", "positions",
         "velocities", "labelled", "mixture", "states", "forces", "comforce", "stress", "phonons", "phsym", "dynmat", "raman", "permittivity",
         "polarisability", "nlo", "adp", "thermo", "mulliken", "born", "orbpop", "bonds", "hirshfeld", "elf", "mddata", "finalconfig", "finalline",
         "enthalpy", "trial", "mintable", "convergence", "internal", "deloc", "active", "tddft", "bands", "dipole", "magres", "elastic", "elprops",
         "berry", "berryverbose", "deltascf"]
GAPS = ("none", "blank", "text", "rule", "blanks")
FULL = frozenset(CATEGORIES)


def docs(chk, kinds, *, size="few", views=(FULL,), presets=False, length=1, runs=1, iterations=0, gaps=("blank",), again=False, faults=False, simulate=None, depth=None, limit=None,
         invariants=("Emit",), properties=(), random=None, workers=6, heap="6g"):
    seen = set()
    chk.model(core.tlc("Castep", consts={"Kinds": set(kinds), "Size": size, "ViewSet": {frozenset(v) for v in views}, "WithPresets": presets, "Length": length, "Runs": runs,
                                         "Iterations": iterations, "Gaps": set(gaps), "Again": again, "Faults": faults},
                       invariants=list(invariants), properties=list(properties), spec="SpecRandom" if simulate and random is not False else "Spec", simulate=simulate,
                       depth=depth or (length + 2 * iterations + 10) * 2,
                       workers=1 if simulate else workers, heap=heap, on_line=seen.add))
    out = sorted(seen)
    if not out:
        raise core.Machinery("no documents")
    if limit is not None and len(out) > limit:
        out = chk.rng.sample(out, limit)
        chk.note("sampled_documents", True)
    return out


def filters(names):
    from castep_outputs.parsers.castep_file_parser import Filters  # noqa: PLC0415
    flt = Filters(0)
    for n in names:
        flt |= Filters[n]
    return flt


def replay(chk, documents, *, what=".castep", carry=False, reps=1, each=None):
    """Parse every document under the filters of its cases, or under some filters of each case."""
    chk.spread(documents, lambda sub, some: _replay(sub, some, what, carry, reps, each))


def _replay(chk, documents, what, carry, reps, each):
    from castep_outputs.parsers.castep_file_parser import parse_castep_file  # noqa: PLC0415
    for n, text_doc in enumerate(documents):
        d = json.loads(text_doc)
        for _ in range(reps):
            doc = Document(chk.rng, T)
            text = doc.render(d["doc"])
            if "err" in d:
                got = core.observe(parse_castep_file, io.StringIO(text), filters(FULL))
                chk.validated()
                if got[0] == "ok":
                    chk.violation(f"{what} cut after {len(d['doc'])} lines, inside a section, parsed to a result without an error",
                                  {"rows": d["doc"], "text": text})
                if chk.full:
                    return
                continue
            for case in d["cases"]:
                exp = doc.resolve(case["exp"])
                flts = [(names, f) for f, names in case["flts"]]
                for names, flt in (chk.rng.sample(flts, each) if each and len(flts) > each else flts):
                    for name in names or [None]:
                        if chk.full:
                            return
                        args = () if name == "" else (filters([name] if name else flt),)
                        got = core.observe(parse_castep_file, io.StringIO(text), *args)
                        bad = key = None
                        if got[0] == "err":
                            bad = f"parsing raised {got[1]}: {got[2]}"
                        else:
                            val = core.plain(got[1])
                            bad = core.compare(exp, val)
                            if bad and case["dev"]:
                                keys, alt = case["dev"][0]
                                if not core.compare(doc.resolve(alt), val):
                                    key = sorted(keys)
                        chk.validated()
                        if not bad:
                            continue
                        asked = name or ("the default" if name == "" else "all" if len(flt) == len(CATEGORIES) else sorted(flt))
                        found = {"rows": d["doc"], "text": text, "filters": name or flt}
                        for k in key or [None]:
                            if k and chk.elsewhere(k):
                                chk.bump("cases_with_findings_of_other_properties")
                            else:
                                chk.violation(f"{what} read with {asked}: {bad}", found, key=k)
            if carry:
                left = doc.unused()
                if left:
                    raise core.Machinery(f"the model loses columns {left[:5]} of {d['doc']}")
        if n == len(documents) // 2:
            chk.sample({"what": what, "rows": d["doc"][:12], "of": len(d["doc"])})
    chk.bump("documents", len(documents))
