"""Templates for grid, structure-factor, Hugoniot, coupling, error and TDDFT files."""


def phrase(v, lo=2, hi=5):
    from harness.doc import WORDS
    return " ".join(v.doc.rng.choice([*WORDS, "Error", "in", "nlpot_prepare", "(rank 3)", "value=2.5", "END", "line 12:"])
                    for _ in range(v.doc.rng.randint(lo, hi)))


def keep(v, c, text):
    return v.put(c, text, text)


def g_head(v, n):
    return (" BEGIN header\n\n           Real Lattice(A)               Lattice parameters(A)    Cell Angles\n"
            + "".join(f"   {v.x('11.7f', 0, 9)}   {v.x('11.7f', 0, 9)}   {v.x('11.7f', 0, 9)}     {a} =    {v.x('8.6f', 1, 9)}  "
                      f"{b:<5} =   {v.x('10.6f', 60, 120)}\n" for a, b in (("a", "alpha"), ("b", "beta"), ("c", "gamma")))
            + f"\n   {min(n, 2)}                            ! nspins\n"
              f"  {v.n(1, 99)}    {v.n(1, 99)}    {v.n(1, 99)}                ! fine FFT grid along <a,b,c>\n")


def dip(v, k, dark=()):
    a, b = v.x(".16E3", *((0, 0) if k in dark else (-9, 9))), v.x(".16E3", *((0, 0) if k in dark else (-9, 9)))
    return v.put(k, f"( {a:>24} {b:>24})", complex(float(a), float(b)))


def pairs(v, j):
    return f" {v.f(['re', j], '11.6f', -99, 99)} {v.f(['im', j], '11.6f', -99, 99)}"


T = {
    "blank": lambda v: "\n",
    "g_head": g_head,
    "g_end": lambda v, cols: f' END header: data is "<a b c> {" ".join(cols)}" in units of electrons/grid_point\n',
    "g_row": lambda v, n: (f"{v.i('a', '6d', 1, 200)}{v.i('b', '6d', 1, 200)}{v.i('c', '6d', 1, 200)}"
                           + "".join(v.f(k, "20.6f", -99, 99) for k in range(1, n + 1)) + "\n"),
    "x_head": lambda v, cols: "   h   k   l" + "".join(f"   Re({c})   Im({c})" for c in cols) + "\n",
    "x_row": lambda v, n: (f"{v.i('h', '4d', -12, 12)}{v.i('k', '4d', -12, 12)}{v.i('l', '4d', -12, 12)}"
                           + "".join(pairs(v, j) for j in range(1, n + 1)) + "\n"),
    "hug": lambda v: f" {v.f(1, '15.12f', 0, 2)} {v.f(2, '17.8f', 0, 5000)} {v.f(3, '17.8f', -50, 50)} {v.f(4, '17.8f', -50, 50)}  <-- cTPE\n",
    "e_head": lambda v: (" Electron-phonon coupling file\n"
                         f" Version {v.i('v', '11d', 1, 9)}\n All units are atomic units\n"
                         f" Unit cell volume   {v.f('vol', '.14f', 1, 900)}     \n Fermi Energy {v.f('ef', '24.16E3', -1, 1)}\n"
                         f" Number of bands: {v.i('nb', '11d', 1, 40)}\n Number of phonon branches: {v.i('np', '11d', 1, 40)}\n"),
    "e_pair": lambda v: (f"Electron-Phonon coupling matrix elements between kpoints ({v.fs(3, '12.6f', '', -.5, .5)}) and "
                         f"({v.fs(3, '12.6f', '', -.5, .5, start=4)})\n"
                         "Ph index  Band_i  Band_f      ph_freq         E_i         E_f          velocity for band 1                 "
                         "velocity for band 2                EP Matrix\n"),
    "e_row": lambda v: (f"{v.i('p', '8d', 1, 30)}{v.i('i', '8d', 1, 30)}{v.i('f', '8d', 1, 30)} "
                        f"{v.fs(11, '12.6f', '', -9, 9, start=4)}\n"),
    "r_msg": lambda v: keep(v, 1, phrase(v)) + "\n",
    "r_trace": lambda v: "Current trace stack:\n",
    "r_stack": lambda v: " " + keep(v, 1, v.doc.rng.choice(["castep", "electronic_minimisation", "check_elec_ground_state",
                                                            "nlpot_prepare_precon_ks", "firstd_calculate_stress"])) + "\n",
    "t_begin": lambda v: ("BEGIN header\n CASTEP generated TDDFT output\n"
                          f" Highest occupied band for spin channel 1 {v.n(1, 99, '10d')}\n Energies in eV\n"),
    "cellhead": lambda v: " Unit cell vectors (A)\n",
    "vec": lambda v: f"{v.fs(3, '12.6f', '', -20, 20)}\n",
    "frac": lambda v: " Fractional Co-ordinates\n",
    "t_atom": lambda v, sp, k: f" {v.name(sp):<2}{k:10d} {v.fs(3, '12.6f', '', -1, 1)}\n",
    "t_end": lambda v: "END header\n",
    "t_charb": lambda v: "BEGIN Characterisation of states as Kohn-Sham bands\n State      Occ.         Unocc.        Overlap\n",
    "t_chare": lambda v: "END Characterisation of states as Kohn-Sham bands\n",
    "t_pair": lambda v, s, o, u: f"{s:10d}{o:10d} -->{u:11d}{v.f(1, '15.6f', 0, 1)}\n",
    "t_total": lambda v, s: f" Total overlap for state {s:4d} = {v.f(1, '8.6f', 0, 1)}\n",
    "t_specb": lambda v: ("BEGIN TDDFT Spectroscopic Data\n     State    Energy (eV)      Characterisation    Converged       Dipoles\n"),
    "t_spece": lambda v: "END TDDFT Spectroscopic Data\n",
    "t_exc": lambda v, n, ch, conv, dark: (f"{n:10d} {v.f(1, '24.16E3', 0, 30)}       {ch:<12}    {'Yes' if conv else 'No ':<4} "
                                     f"    {dip(v, 2, dark)}   {dip(v, 3, dark)}   {dip(v, 4, dark)}\n"),
}
