"""Templates for .bands, .phonon and .phonon_dos rows."""


def b_elec(v, split):
    return f"Number of electrons  {v.i(1, '.3f', 1, 300)}" + (f"  {v.i(2, '.3f', 1, 300)}" if split else "") + "\n"


def cplx(v, k):
    a, b = v.x("14.12f", -1, 1), v.x("14.12f", -1, 1)
    return v.put(k, f"{a} {b}", complex(float(a), float(b)))


def freq(v, n, ir, ra):
    return (f"{n:8d}{v.f('f', '15.6f', -50, 3000)}        "
            + (v.f("ir", "15.7f", 0, 100) if ir else " " * 15) + " " * 9
            + (v.f("ra", "15.7f", 0, 100) if ra else " " * 15) + "\n")


T = {
    "b_n": lambda v, k, n: f"Number of {k} {n:5d}\n",
    "b_elec": b_elec,
    "b_eig": lambda v, n, split: f"Number of eigenvalues {n:5d}" + (f" {n:6d}" if split else "") + "\n",
    "b_fermi": lambda v, split: (f"Fermi energies (in atomic units)  {v.fs(2, '11.6f', '  ', -1, 1)}\n" if split else
                                 f"Fermi energy (in atomic units)  {v.f(1, '11.6f', -1, 1)}\n"),
    "b_cell": lambda v: "Unit cell vectors\n",
    "vec": lambda v: f"{v.fs(3, '12.6f', '', -20, 20)}\n",
    "b_kpt": lambda v, k: f"K-point {k:5d} {v.fs(3, '11.8f', ' ', -.5, .5)}  {v.f(4, '10.8f', 0, 1)}\n",
    "b_spin": lambda v, k: f"Spin component {k}\n",
    "b_val": lambda v: f"{v.f(1, '14.8f', -30, 30)}\n",
    "begin": lambda v: " BEGIN header\n",
    "end": lambda v: " END header\n",
    "p_n": lambda v, k, n: f" Number of {k:<18} {n:5d}\n",
    "p_unit": lambda v: (" Frequencies in         cm-1\n IR intensities in      (D/A)**2/amu\n"
                         " Raman activities in    A**4 amu**(-1)\n"),
    "cellhead": lambda v: " Unit cell vectors (A)\n",
    "frac": lambda v: " Fractional Co-ordinates\n",
    "frac_ion": lambda v, k, sp: (f"{k:6d} {v.f('u', '12.6f', -1, 1)} {v.f('v', '12.6f', -1, 1)} {v.f('w', '12.6f', -1, 1)}"
                                  f"   {v.name(sp):<2}  {v.f('m', '14.6f', 1, 250)}\n"),
    "q": lambda v, k, d: (f"     q-pt={k:5d}  {v.fs(3, '10.6f', '', *((0, 0) if d else (-.5, .5)))}  {v.f(4, '16.10f', 0, 1)}"
                          + (f"  {''.join(v.f(i, '10.6f', -1, 1) for i in (5, 6, 7))}" if d else "") + "\n"),
    "freq": freq,
    "evhead": lambda v: "                        Phonon Eigenvectors\n",
    "evcols": lambda v: "Mode Ion                X                                   Y                                   Z\n",
    "evec": lambda v, m, i: f"{m:4d}{i:4d} {cplx(v, 1)}     {cplx(v, 2)}     {cplx(v, 3)}\n",
    "gradbegin": lambda v: " BEGIN GRADIENTS   n   f   |Grad_q f|\n",
    "gradend": lambda v: " END GRADIENTS\n",
    "gq": lambda v, k: f"     q-pt={k:5d}  {v.fs(3, '10.6f', '', -.5, .5)}      {v.f(4, '12.10f', 0, 1)}\n",
    "grow": lambda v, k: f"{k:8d}     {v.f('f', '15.6f', -50, 3000)}     {v.f('g', '15.7f', 0, 300)}\n",
    "dosbegin": lambda v, sp: " BEGIN DOS   Freq (cm-1)  g(f)   " + "   ".join(v.name(s) for s in sp) + "\n",
    "dosrow": lambda v, n, k: (f"{v.f('x', '8.1f', -50, 3000)}   {v.f('g', '.6f', 0, 1)}"
                               + "".join(f"   {v.f(f's{i}', '.6f', 0, 1)}" for i in range(1, k + 1)) + "\n"),
    "dosend": lambda v: "  END DOS\n",
}
