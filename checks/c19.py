"""C19: numeric and logical tokens against spec/Numerals.tla."""

import io
import json
from fractions import Fraction

from harness import core
from harness.formats import docs_from

LOGICAL = {True: ("T", "t", "True", "TRUE", "true", "tRUE"), False: ("F", "f", "False", "FALSE", "false", "fALSE")}
TYPES = {"int": int, "float": float, "bool": bool, "str": str}
NAMES = {v: k for k, v in TYPES.items()}


def concrete(rng, d):
    """A token of the given character classes and its exact value."""
    classes = d["str"]
    out = []
    for i, c in enumerate(classes, 1):
        if c == "digit":
            if d["exps"] and i == d["exps"][0] and len(d["exps"]) == 3:
                out.append(rng.choice("012"))
            elif d["den"] and i == d["den"][-1]:
                out.append(rng.choice("123456789"))
            else:
                out.append(rng.choice("0123456789"))
        elif c == "sign":
            out.append(rng.choice("+-"))
        elif c == "exp":
            out.append(rng.choice("eE"))
        elif c == "alpha":
            out.append(rng.choice("xyzQ_%"))
        else:
            out.append({"dot": ".", "slash": "/"}[c])
    def num(where):
        return int("".join(out[i - 1] for i in where) or "0")
    neg = out[0] == "-"
    if d["kind"] == "int":
        val = -num(d["mant"]) if neg else num(d["mant"])
    elif d["kind"] == "float":
        e = num(d["exps"])
        if d["exps"] and out[d["exps"][0] - 2] == "-":
            e = -e
        val = Fraction(num(d["mant"])) * Fraction(10) ** (e - d["frac"])
        val = float(-val if neg else val)
    elif d["kind"] == "rational":
        val = Fraction(num(d["mant"]), num(d["den"]))
        val = float(-val if neg else val)
    else:
        val = "".join(out)
    return "".join(out), val


def same(a, b):
    return type(a) is type(b) and a == b


def run(chk):
    from castep_outputs import parse_cell_file, parse_param_file
    from castep_outputs.utilities import castep_res as res
    from castep_outputs.utilities.type_conv import determine_type, fix_data_types, to_type

    def expect(what, got, exp, tok):
        if got[0] == "err":
            chk.violation(f"{what} of {tok!r} raised {got[1]}: {got[2]}", {"token": tok})
        elif not same(got[1], exp):
            chk.violation(f"{what} of {tok!r}: expected {exp!r}, got {got[1]!r}", {"token": tok})

    tokens = {"int": [], "float": [], "rational": []}
    docs = [json.loads(x) for x in
            docs_from(chk, "Numerals", {"Mode": "token", "MaxLen": chk.pick(10, 12), "Wrong": chk.pick(6, 7)}, ["SameLanguage", "AllDigits", "Emit"], heap="8g")]
    chk.note("token_shapes", len(docs))
    for n, d in enumerate(docs):
        for _ in range(1 if d["kind"] == "other" else 3 if chk.quick else 8):
            if chk.full:
                return
            tok, val = concrete(chk.rng, d)
            chk.validated()
            typ = core.observe(determine_type, tok)
            want = {"int": int, "float": float, "rational": float, "other": str}[d["kind"]]
            expect("type", typ, want, tok)
            if typ[0] == "ok":
                expect("conversion by inferred type", core.observe(to_type, tok, typ[1]), val, tok)
            if d["kind"] == "other":
                continue
            tokens[d["kind"]].append((tok, val))
            expect("conversion to real", core.observe(to_type, tok, float), float(val), tok)
            if len(tok) < 6 or n % 11 == 0:
                if d["kind"] != "rational":
                    expect("numbers on a line", core.observe(lambda t: res.get_numbers(f" E  {t} , abc"), tok), [tok], tok)
                    got = core.observe(lambda t: parse_param_file(io.StringIO(f"some_key : {t}\n"))[0].get("some_key"), tok)
                    expect("keyword value", got, val, tok)
                got = core.observe(lambda t: parse_cell_file(io.StringIO(
                    f"%block any_block\n 1 {t} -2.5\n%endblock any_block\n"))[0].get("any_block", {}).get("data"), tok)
                expect("block value", got, [(1.0, float(val), -2.5)], tok)
        if n == 1234:
            chk.sample({"shape": d["str"], "kind": d["kind"], "token": tok})

    for val, forms in LOGICAL.items():
        for tok in forms:
            expect("type", core.observe(determine_type, tok), bool, tok)
            expect("conversion", core.observe(to_type, tok, bool), val, tok)
            expect("keyword value", core.observe(lambda t: parse_param_file(io.StringIO(f"some_key : {t}\n"))[0].get("some_key"), tok), val, tok)

    vectors = [json.loads(x) for x in
               docs_from(chk, "Numerals", {"Mode": "vector", "MaxLen": 4, "Wrong": 0}, ["Emit"])]
    for d in vectors:
        for _ in range(chk.pick(6, 60)):
            if chk.full:
                return
            toks, vals = [], []
            for k in d["str"]:
                if k == "logical":
                    v = chk.rng.random() < .5
                    t = chk.rng.choice(LOGICAL[v])
                elif k == "word":
                    t = v = chk.rng.choice(("Hello", "abc-d", "Ang", "phonon+efield", "Truex", "e", "a/b", "-"))
                else:
                    t, v = chk.rng.choice(tokens[k])
                toks.append(t)
                vals.append(v)
            line = chk.rng.choice((" ", "  ", "\t", "   ")).join(toks)
            typ = TYPES[d["kind"]]
            chk.validated()
            expect("type", core.observe(determine_type, line), typ, line)
            if d["kind"] == "str":
                expect("conversion by inferred type", core.observe(to_type, line, typ), line, line)
            elif d["kind"] == "bool":
                expect("conversion by inferred type", core.observe(to_type, line, typ), vals[0], line)
            else:
                exp = tuple(map(typ, vals))
                expect("conversion of a vector", core.observe(to_type, toks, typ), exp, line)
                expect("conversion of a mapping", core.observe(to_type, dict(enumerate(toks)), typ), dict(enumerate(exp)), line)
                what = {"a": toks[0], "v": tuple(toks), "other": toks[0], "none": None}
                got = core.observe(lambda w: (fix_data_types(w, {"a": typ, "v": typ, "none": typ, "absent": typ}), w)[1], dict(what))
                expect("conversion in place", got, {"a": exp[0], "v": exp, "other": toks[0], "none": None}, line)
                got = core.observe(res.FLOAT_RAT_RE.findall, line)
                expect("numbers and fractions on a line", got, toks, line)
                if "rational" not in d["str"]:
                    expect("numbers on a line", core.observe(res.get_numbers, line), toks, line)
                    # Fortran drops the space in front of a sign
                    tight = toks[0] + "".join(t if t[0] in "+-" else f" {t}" for t in toks[1:])
                    expect("numbers run together", core.observe(res.get_numbers, tight), toks, tight)
    chk.note("vectors", len(vectors))
    chk.assumptions.append("exponents of at most three digits; D exponents are not in the accepted grammar")
