"""Templates for .cell and .param entries: spelling, spacing, case and comments vary freely."""

from fractions import Fraction

from harness.doc import WORDS

KEYWORDS = ["cut_off_energy", "task", "fix_com", "kpoint_mp_grid", "comment", "md_temperature", "spin", "xc_functional",
            "elec_energy_tol", "sedc_s6_g06", "quantization_axis", "nextra_bands", "phonon_fine_method", "write_cell_structure",
            "symmetry_generate", "charge", "opt_strategy", "continuation", "rand_seed", "cell_x2"]
NUMBLOCKS = ["lattice_cart", "lattice_abc", "cell_constraints", "kpoints_list", "bs_kpoint_path", "external_pressure",
             "phonon_supercell_matrix", "supercell_kpoint_list", "external_efield", "ionic_velocities"]
SPBLOCKS = ["species_mass", "species_lcao_states", "hirshfeld_init", "species_gamma", "species_q"]
XC = ["lda", "pbe", "hf", "hf_lyp", "b_lyp", "rscan", "b3lyp", "pw91"]
UNITS = ["eV", "ang", "1/ang", "kcal/mol", "hartree/bohr", "GPa", "bohr**2", "Angstrom", "K", "fs", "amu", "cm-1", "Ha/bohr**3"]
BLOCKUNITS = ["eV", "ang", "bohr", "kcal/mol", "HARTREE/BOHR/E", "GPa", "Angstrom", "amu", "barn", "ang/ps", "Ry"]
TEXT = ["a longer comment", "mix of Words and 12.5 numbers", "key : value = more", "Run A: T=300", "geometry optimisation 2",
        "path/to some_file.check", "x  =  y", "T F T", "1/2 cell", "half of 3 then"]
ODD = ["2x2x2", "0.5x", ".hidden_file", "-abc", "+plus", "3d", "1e5f", "10-Si.check", "/tmp/x", "*", "4.5.6", "12-34", "1/2/3", "_x", "(2)", "1,2",
       "2 by 2 supercell", "0.12345678901234567 2.3456789012345678 1.234567890123456E+000 of these", "3 eV or so",
       "1.0000000000000000 2.0000000000000000 3.0000000000000000 x y", "12 34.5 Mg and O"]
WORD = ["geometryoptimization", "PBE", "Spectral", "continuous", "NO", "path/to/file.check", "Si8", "x_y-z", "default", "C19", "quartz.cell",
        "tt", "Falsee", "H2O"]
POTS = ["QC5", "C19", "NCP19", "H_00.usp", "O_C19_PBE_OTF.usp", "../pots/Fe.recpot", "Si_00PBE.usp", "C9"]

POOLS = {"kw": KEYWORDS, "nb": NUMBLOCKS, "sb": SPBLOCKS, "xc": XC,
         "sec": ["alg", "ga", "pp", "share", "x_y", "t2"], "dk": ["dsize", "tol", "n2", "my_key", "q", "mode", "z9", "verb", "use_ga", "file_in", "abc", "alg_x", "t", "kd"]}


def mix(v, s):
    r = v.doc.rng
    return r.choice([s, s.lower(), s.upper(), s.title(), "".join(r.choice([c.lower(), c.upper()]) for c in s)])


def digits(v, lo, hi):
    return "".join(v.doc.rng.choice("0123456789") for _ in range(v.doc.rng.randint(lo, hi)))


def number(v, c, kind, bare=True):
    """A number of the given kind in column c."""
    r = v.doc.rng
    sign = r.choice(["", "", "", "-", "+"])
    if kind == "int":
        t = sign + (r.choice("0123456789") + digits(v, 0, 4))
        return v.put(c, t, int(t))
    if kind == "frac":
        t = f"{sign}{r.randint(0, 40)}/{r.randint(1, 30)}"
        return v.put(c, t, float(Fraction(t)))
    if kind == "real":
        t = sign + r.choice([f"{digits(v, 1, 3)}.{digits(v, 1, 10)}", f"{digits(v, 1, 2)}.{digits(v, 14, 16)}", f".{digits(v, 1, 6)}", f"{digits(v, 1, 4)}." if bare else "2.5"])
        return v.put(c, t, float(t))
    assert kind == "exp"
    m = r.choice([f"{digits(v, 1, 3)}.{digits(v, 1, 6)}", f".{digits(v, 1, 6)}", digits(v, 1, 3), f"{digits(v, 1, 3)}."])
    t = f"{sign}{m}{r.choice('eE')}{r.choice(['', '-', '+'])}{r.randint(0, 40)}"
    return v.put(c, t, float(t))


def logical(v, c):
    t = v.doc.rng.choice(["T", "t", "true", "True", "TRUE", "F", "f", "false", "False", "FALSE", "tRuE", "fALSE"])
    return v.put(c, t, t.lower()[0] == "t")


def chosen(v, c, pool):
    t = v.doc.rng.choice(pool)
    return v.put(c, t, t)


def values(v, kinds):
    if kinds == ["logical"]:
        return logical(v, 1)
    pool = {"word": WORD, "text": TEXT, "odd": ODD}.get(kinds[0])
    if pool:
        return chosen(v, 1, pool)
    return v.doc.rng.choice([" ", "  ", "\t", "    "]).join(number(v, k, kind) for k, kind in enumerate(kinds, 1))


def gap(v):
    return v.doc.rng.choice([" ", "  ", "\t", "      ", " \t "])


def line(v, text, least=0):
    """The line with comments, blank lines and spacing around it as users leave them."""
    r = v.doc.rng
    out = ""
    while r.random() < 0.2:
        out += r.choice(["\n", "   \n", "# a comment\n", "! task : energy\n", "  #%BLOCK lattice_cart\n", "! 1 2 3\n", "\t\n", "#\n"])
    out += r.choice(["", "", " ", "   ", "\t"][least:]) + text
    if r.random() < 0.2:
        out += gap(v) + r.choice(["# note", "! in eV", "#5.0", "!", "! Fe 1 2 3", "# a ! b"])
    return out + r.choice(["", "", "", " ", "\t"]) + "\n"


def sep(v, v0):
    """Between a keyword and its value."""
    r = v.doc.rng
    return r.choice([" : ", ":", "= ", " =", "  ", "\t", "\t:\t", ": ", "   =   "])


def kw(v, key, kinds, unit):
    text = mix(v, v.name(key)) + sep(v, kinds) + values(v, kinds)
    if unit:
        text += gap(v) + chosen(v, "unit", UNITS)
    return line(v, text)


def block(v, name):
    return line(v, mix(v, "%block") + " " * v.doc.rng.randint(1, 3) + mix(v, v.name(name)))


def endblock(v, name):
    return ("\n" if name == "devel_code" else "") + line(v, mix(v, "%endblock") + " " * v.doc.rng.randint(1, 2) + mix(v, v.name(name)))


def pos(v, sp, spin, mixture):
    r = v.doc.rng
    kinds = r.choice([["real"] * 3, ["int"] * 3, ["frac", "real", "exp"], ["frac"] * 3, ["real", "int", "frac"]])
    text = v.name(sp) + gap(v) + gap(v).join(number(v, k, x) for k, x in enumerate(kinds, 1))
    parts = []
    if spin:
        parts.append(mix(v, r.choice(["spin", "magmom"])) + r.choice(["=", " = ", ":", " : ", " ", "= "])
                     + number(v, "spin", r.choice(["int", "real", "frac", "exp"])))
    if mixture:
        parts.append(mix(v, "mixture") + r.choice(["=", " = ", ":", " : ", " ", ":"]) + "(" + r.choice(["", " ", "   "])
                     + v.i("mix", "d", 1, 20) + gap(v) + number(v, "weight", "real") + r.choice(["", " "]) + ")")
    r.shuffle(parts)
    return line(v, gap(v).join([text, *parts]))


def ionic(v, k, sp, i):
    r = v.doc.rng
    return line(v, f"{k}{gap(v)}{v.name(sp)}{gap(v)}{i}{gap(v)}" + gap(v).join(number(v, c, r.choice(["real", "real", "int", "exp"])) for c in (1, 2, 3)))


def nonlin(v, kind, atoms):
    return line(v, kind + gap(v) + gap(v).join(
        f"{v.name(sp)}{gap(v)}{i}{gap(v)}" + gap(v).join(v.i(10 * j + d, "d", -2, 2) for d in (1, 2, 3)) for j, (sp, i) in enumerate(atoms, 1)))


def pairs(v, *which):
    r = v.doc.rng
    return gap(v).join(name + r.choice([":", ": ", " : "]) + (number(v, c, "int" if c == "p" else "real", bare=False)).lstrip("+")
                       for name, c in which)


def hub(v, sp, idx, two):
    return line(v, v.name(sp) + gap(v) + (f"{idx}{gap(v)}" if idx else "") + pairs(v, *([("p", "p")] if two else []), ("d", "d")))


def sedc(v, sp, two):
    return line(v, v.name(sp) + gap(v) + pairs(v, ("C6", "d"), *([("R0", "p")] if two else [])))


def xc(v, name):
    return line(v, mix(v, v.name(name)) + gap(v) + number(v, 1, v.doc.rng.choice(["real", "exp"])))


def xcpar(v, name, on):
    if name == "nlxc_screening_length":
        val = number(v, 1, "real")
    elif name == "nlxc_screening_function":
        val = chosen(v, 1, ["erfc", "Thomas-Fermi", "Yukawa"])
    else:
        val = v.doc.rng.choice(["ON", "on", "On"] if on else ["OFF", "off", "Off"])
    return line(v, mix(v, name) + gap(v) + val)


# --- devel_code

FILES = ["a.check", "run-1.cell", "../x/y.bin", "3-pieces", "v1.2.3"]


def dev(v, kind):
    r = v.doc.rng
    if kind == "int":
        return number(v, 1, "int")
    if kind == "real":
        return number(v, 1, r.choice(["real", "exp"]))
    if kind == "logical":
        return logical(v, 1)
    return chosen(v, 1, FILES if kind == "file" else ["fast", "Alpha", "x_y", "none_", "Best"])


def dline(v, text):
    """An item of the block: on a line of its own, or with the next one."""
    return text + v.doc.rng.choice(["\n", "\n", " ", "; ", ";", "\n\n", "   ", ";\n", *([] if v.doc.templates is T_CASTEP else [" # comment: x=2\n"])])


def ddat(v, kind):
    return dline(v, dev(v, kind))


T = {
    "kw": kw, "block": block, "endblock": endblock,
    "units": lambda v: line(v, chosen(v, 1, BLOCKUNITS)),
    "units2": lambda v: line(v, chosen(v, 1, BLOCKUNITS) + gap(v) + chosen(v, 2, BLOCKUNITS)),
    "nums": lambda v, kinds: line(v, gap(v).join(number(v, k, x) for k, x in enumerate(kinds, 1))),
    "break": lambda v: line(v, "BREAK"),
    "sprow": lambda v, sp, kinds: line(v, v.name(sp) + gap(v) + values(v, kinds)),
    "pos": pos, "ionic": ionic, "nonlin": nonlin, "hub": hub, "sedc": sedc, "xc": xc, "xcpar": xcpar,
    "potlib": lambda v: line(v, chosen(v, 1, POTS)),
    "pot": lambda v, sp: line(v, v.name(sp) + gap(v) + chosen(v, 1, POTS)),
    "dsec": lambda v, name: mix(v, v.name(name)) + ":" if v.doc.rng.random() < 0.3 else dline(v, mix(v, v.name(name)) + ":"),
    "dend": lambda v, name: dline(v, mix(v, ":END" + v.name(name))),
    # "NAME:" where NAME is also a section would open that section
    "dval": lambda v, name, kind: dline(v, mix(v, v.name(name)) + v.doc.rng.choice("=" if name.startswith("@sec") else ":=") + dev(v, kind)),
    "ddat": ddat,
    # words may be spelt with a hyphen: keys are normalised
    "dword": lambda v, name: dline(v, mix(v, v.name(name)).replace("_", v.doc.rng.choice("__-"))),
}

BANNER = " ******************************* Developer Code ********************************\n\n "
ENDING = "\n\n " + "*" * 79 + "\n\n"
GENERAL = """ ***************************** General Parameters ******************************
  
 output verbosity                               : normal  (1)
 output           length unit                   : A
  
"""
#: devel_code as a .castep file repeats it, among the other parameters
T_CASTEP = {**T, "block": lambda v, name: "\n" + GENERAL + BANNER,
            "endblock": lambda v, name: ENDING}
