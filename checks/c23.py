"""C23: every section of a .castep file against spec/Castep.tla, in all its forms and sizes."""

import io
import itertools

from harness import castep
from harness.core import compare
from harness.formats import docs_from, replay
from harness.t_inputs import POOLS
from harness.t_inputs import T as INPUTS
from harness.t_spectra import T as SPECTRA
from harness.t_tables import T as TABLES
from harness.t_tensors import T as TENSORS

# the regression-test build of CASTEP prints whole output files inside the .castep
EXTERNAL = (("Spectra", SPECTRA, ("bands", "phonon_dos"), {"MaxPts": 2, "MaxIons": 2}, {"MaxPts": 8, "MaxIons": 6}),
            ("Tables", TABLES, ("hug", "xrd_sf", "elf_fmt", "chdiff_fmt", "pot_fmt", "den_fmt"), {"MaxRows": 2, "MaxGroups": 2},
             {"MaxRows": 20, "MaxGroups": 3}),
            ("Tensors", TENSORS, ("efield", "elastic"), {"MaxIons": 2, "MaxRows": 2, "MaxSecs": 2}, {"MaxIons": 6, "MaxRows": 10, "MaxSecs": 6}))

TIMES = "Initialisation time =      1.25 s\nCalculation time    =     20.50 s\n"
OTHER = ("hug", " 0.500000000000  1000.00000000  2.50000000  -3.25000000  <-- cTPE\n")
OTHERWISE = ("xrd_sf", "   h   k   l   Re(F_PAW)   Im(F_PAW)\n   1  -2   3    0.500000   -0.250000\n")
OTHERS = {"hug": {"compression": [0.5], "temperature": [1000.0], "pressure": [2.5], "energy": [-3.25]},
          "xrd_sf": {"qvec": [[1, -2, 3]], "f_paw": [complex(0.5, -0.25)]}}


def run(chk):
    from castep_outputs import parse_castep_file
    from castep_outputs.parsers.castep_file_parser import Filters

    # every kind of section alone, in every form
    docs = castep.docs(chk, castep.KINDS, size="wide", gaps=("none",), limit=chk.pick(None, None))
    castep.replay(chk, docs, what="one section", carry=True, reps=chk.pick(2, 40))
    docs = castep.docs(chk, castep.KINDS, size="long", gaps=("none",))
    castep.replay(chk, docs, what="one long section", carry=True, reps=chk.pick(2, 30))
    # the same at the top of a file that goes on
    docs = castep.docs(chk, castep.KINDS, size="wide", gaps=castep.GAPS, length=4, simulate=chk.pick(150, 3000))
    castep.replay(chk, docs, what="four sections", carry=False)

    # whole files printed inside the .castep
    flt = Filters.TEST_EXTRA_DATA | Filters.SYS_INFO
    for module, templates, formats, small, large in EXTERNAL:
        for fmt in formats:
            other, extra = OTHER if fmt != OTHER[0] else OTHERWISE
            turn = itertools.count()

            def embedded(src, fmt=fmt, other=other, extra=extra, turn=turn):
                # alone, after or before another, right after the timings
                text = src.read()
                text += "" if text.endswith("\n") else "\n"
                files, how = [(fmt, text)], next(turn) % 5
                if how in {1, 3}:
                    files.append((other, extra))
                elif how == 2:
                    files.insert(0, (other, extra))
                lead = TIMES if how in {2, 3, 4} else " Total time          =      1.00 s\n"
                body = ("\n" if how == 1 else "").join(f"<BEGIN {key}>\n{x}<END {key}>\n" for key, x in files)
                (only,) = parse_castep_file(io.StringIO(f"{lead}{body}\n"), Filters.TEST_EXTRA_DATA if how == 4 else flt)
                want = {"external_files": {key for key, _ in files}, **({"initialisation_time": 1.25, "calculation_time": 20.5} if how in {2, 3} else {})}
                if {key: set(val) if key == "external_files" else val for key, val in only.items()} != want:
                    raise AssertionError(f"embedded {[key for key, _ in files]} files gave {dict(only)}")
                if len(files) == 2 and compare(only["external_files"][other], OTHERS[other]):
                    raise AssertionError(f"an embedded {other} file by a {fmt} one gave {only['external_files'][other]}")
                return only["external_files"][fmt]

            docs = docs_from(chk, module, {"Format": fmt, "Faults": False, **small}, invariants=["Emit"])
            if len(docs) > chk.pick(60, 1000):
                docs = chk.rng.sample(docs, chk.pick(60, 1000))
                chk.note("sampled_documents", True)
            docs += docs_from(chk, module, {"Format": fmt, "Faults": False, **large}, invariants=["Emit"], simulate=chk.pick(8, 80), depth=3000)
            replay(chk, docs, templates, embedded, what=f"embedded {fmt}", carry=False,
                   norm=lambda v: (v.pop("", None), v)[1] if isinstance(v, dict) else v)
