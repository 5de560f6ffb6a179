"""Templates for .efield, .elastic and .magres rows."""

from harness.t_spectra import T as SPECTRA

LD = "ld"


def calcs(v, key):
    r = v.doc.rng
    text = {"name": r.choice(["h", "quartz", "Fe3O4-v2", "a.b"]), "cutoffenergy": f"{r.uniform(100, 900):.8f} eV",
            "kpoint_mp_grid": f"{r.randint(1, 9)} {r.randint(1, 9)} {r.randint(1, 9)}"}[key]
    return f"calc_{key} {v.put(1, text, text)}\n"


def tensor(v, q, sp, i, munged):
    lab = f"{v.name(sp)}{i}" if munged else f"{v.name(sp)}    {i}"
    return f"{q} {lab} {v.fs(9, '27.16E', ' ', -99, 99)}\n"


def osc_q(v):
    return f"  Oscillator Q          {v.f(1, '8.1f', 1, 99)}\n"


def _n(v, n):
    """A count that the reader may mistake for data."""
    return v.put("n", str(n), float(n))


T = {
    **{k: SPECTRA[k] for k in ("begin", "end", "p_n", "cellhead", "vec", "frac", "frac_ion")},
    "osc_q": osc_q,
    "oscbegin": lambda v: " BEGIN Oscillator Strengths   Freq (cm-1)   S xx yy zz yz zx xy ((D/A)**2/amu)\n",
    "osc": lambda v, n: f" {_n(v, n):>8} {v.f(1, '15.6f', -20, 3000)}     {v.fs(6, '14.6f', ' ', -99, 99, start=2)}\n",
    "oscend": lambda v: " END Oscillator Strengths\n",
    "permbegin": lambda v: " BEGIN permittivity   Freq (cm-1)    e_r  xx yy zz yz zx xy\n",
    "perm": lambda v, n: f"       {v.f(1, '15.6f', 0, 3000)}     {v.fs(6, '14.6f', ' ', -99, 99, start=2)}\n",
    "permend": lambda v: " END permittivity\n",
    "elbegin": lambda v, name, unit, voigt: f" BEGIN {name}  {'xx yy zz yz zx xy ' if voigt else ''}({unit})\n",
    "elend": lambda v, name: f" END {name}\n",
    "sixld": lambda v: "   " + " ".join(f"{v.f(k, LD, -300, 300):<25}" for k in range(1, 7)) + "\n",
    "strain": lambda v, i, sp, d: (f"{_n(v, i):>6}   {v.name(sp):<2}      {d}  "
                                   + " ".join(f"{v.f(k, LD, -30, 30):<25}" for k in range(1, 7)) + "\n"),
    "m_head": lambda v: ("#$magres-abinitio-v1.0\n"
                         "# See http://www.ccpnc.ac.uk/pmwiki.php/CCPNC/Fileformat for format definition\n"),
    "m_open": lambda v, name: f"[{name}]\n",
    "m_close": lambda v, name: f"[/{name}]\n",
    "m_calc": lambda v, key, val: f"calc_{key}  {val}\n",
    "m_calcs": calcs,
    "m_nocomment": lambda v: "calc_comment\n",
    "m_units": lambda v, key, unit: f"units {key} {unit}\n",
    "m_lattice": lambda v: f"lattice {v.fs(9, '27.16E', ' ', -20, 20)}\n",
    "m_symm": lambda v: "symmetry x,y,z\n",
    "m_atom": lambda v, sp, lab, i: f"atom {v.name(sp):<2}      {v.name(lab):<2} {i:4d} {v.fs(3, '27.16E', ' ', -20, 20)}\n",
    "m_ten": tensor,
    "m_pair": lambda v, q, a, i, b, j: f"{q} {v.name(a)} {i:4d} {v.name(b)} {j:4d} {v.fs(9, '27.16E', ' ', -99, 99)}\n",
    "blank": lambda v: "\n",
    "o_head": lambda v, sp, i: (f"============\nAtom: {v.name(sp):<2} {i:7d}\n============\n"
                                f"{v.name(sp):<2} {i:7d} Coordinates  {v.x('9.3f')}{v.x('9.3f')}{v.x('9.3f')}   A\n\n"),
    "o_total": lambda v: "TOTAL Shielding Tensor\n\n",
    "three": lambda v: f"         {v.fs(3, '12.4f', '', -999, 999)}\n",
    "o_eval": lambda v, sp, i, d: f"{v.name(sp):<2} {i:7d} Eigenvalue  sigma_{d} {v.f(1, '12.4f', -999, 999)} (ppm)\n",
    "o_evec": lambda v, sp, i, d: f"{v.name(sp):<2} {i:7d} Eigenvector sigma_{d} {v.fs(3, '12.4f', '', -1, 1)}\n",
    "o_iso": lambda v, sp, i, k, ppm: (f"{v.name(sp):<2} {i:7d} {k + ':':<12} {v.f(1, '10.4f', -999, 999)}"
                                       + (" (ppm)\n" if ppm else "\n")),
}
