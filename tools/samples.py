"""Rewrite harness/samples.json: contents of every supported type, rendered once from the format models."""
import json
import pathlib
import random
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from harness import core  # noqa: E402

core.load_repo()
from checks import c14, c16  # noqa: E402, F401
from harness import t_binary, t_inputs, t_spectra, t_tables, t_tensors  # noqa: E402
from harness.doc import Document  # noqa: E402
from harness.formats import docs_from  # noqa: E402

RNG = random.Random(11)


def texts(module, consts, templates, pools=None, simulate=25, depth=400, want=5, inv=("Emit",), size=(200, 9000)):
    chk = core.Check("C08")
    docs = docs_from(chk, module, consts, invariants=list(inv), simulate=simulate, depth=depth)
    RNG.shuffle(docs)
    out = []
    for d in docs:
        d = json.loads(d)
        t = Document(RNG, templates, pools).render(d["doc"])
        if size[0] <= len(t) <= size[1] and len({len(x) for x in out} & {len(t)}) == 0:
            out.append(t)
        if len(out) == want:
            break
    assert len(out) >= 3, (module, consts, len(docs), [len(x) for x in out])
    return out


S = {}
md = {"Format": "md", "MaxFrames": 4, "Rich": True}
S["md"] = texts("Trajectory", md, c14.MD, c14.POOLS)
S["geom"] = texts("Trajectory", md, c14.MD, c14.POOLS)
S["ts"] = texts("Trajectory", {"Format": "ts", "MaxFrames": 4, "Rich": True}, c14.TS, c14.POOLS)
for f in ("bands", "phonon", "phonon_dos"):
    S[f] = texts("Spectra", {"Format": f, "MaxPts": 3, "MaxIons": 2, "Faults": False}, t_spectra.T, depth=4000)
for f in ("den_fmt", "chdiff_fmt", "pot_fmt", "elf_fmt", "xrd_sf", "hug", "epme", "err", "tddft"):
    S[f] = texts("Tables", {"Format": f, "MaxRows": 8, "MaxGroups": 3, "Faults": False}, t_tables.T, depth=1000, size=(60, 20000))
for f in ("efield", "elastic", "magres"):
    S[f] = texts("Tensors", {"Format": f, "MaxIons": 3, "MaxRows": 5, "MaxSecs": 2, "Faults": False}, t_tensors.T, depth=1000, size=(200, 20000))
for f in ("cst_esp", "epme_bin"):
    S[f] = [t.hex() for t in texts("Binary", {"Format": f, "MaxN": 3, "Faults": False}, t_binary.T, depth=1000, size=(100, 9000))]

S["cell"] = [
    "%BLOCK LATTICE_CART\nang\n 5.4 0 0\n 0 5.4 0\n 0 0 5.4\n%ENDBLOCK LATTICE_CART\n\n%block positions_frac\nSi 0 0 0\nSi 0.25 0.25 0.25 spin=1.5\n%endblock positions_frac\n\nkpoint_mp_grid 2 2 2\n",
    "! comment\nfix_com : true\nsymmetry_generate\n%block species_pot\nSi 2|1.8|2|2.6|5|30:31:32\nO O_00.usp\n%endblock species_pot\n%block hubbard_u\neV\nFe 1 d: 2.5\n%endblock hubbard_u\n",
    "%block ionic_constraints\n1 Si 1 1 0 0\n2 Si 1 0 1 0\n%endblock ionic_constraints\n%BLOCK bs_kpoint_path\n0 0 0\n0.5 0 0\n%ENDBLOCK bs_kpoint_path\nKPOINT_MP_SPACING 0.05 1/ang\n",
    "%block external_pressure\nGPa\n1.0 0 0\n1.0 0\n1.0\n%endblock external_pressure\n%block symmetry_ops\n1 0 0\n0 1 0\n0 0 1\n0 0 0\n%endblock symmetry_ops\n",
]
S["param"] = [
    "task : geometryoptimisation\ncut_off_energy 340 eV\nxc_functional = PBE\nspin_polarized true\n",
    "TASK=MD\nmd_delta_t 1.5 fs\nmd_temperature : 300 K\nmd_num_iter 20\n# comment\nwrite_checkpoint none\n%block devel_code\nPP: BUCK=T pot_print=F :ENDPP\ntrace\n%endblock devel_code\n",
    "comment : something or other 12\nnum_dump_cycles 0\nelec_energy_tol 1e-8 eV\nphonon_fine_kpoint_mp_grid 4 4 2\n",
    "%block xc_definition\npbe 0.75\nhf 0.25\nNLXC_SCREENING_LENGTH 0.11\n%endblock xc_definition\ncontinuation default\n",
]
data = core.REPO / "test" / "data_files"
S["castep"] = [(data / n).read_text() for n in ("pp-md.castep", "si8-md.castep", "test.castep") if (data / n).exists()]
print({k: [len(x) for x in v] for k, v in S.items()})
(ROOT / "harness" / "samples.json").write_text(json.dumps(S, indent=0) + "\n")
