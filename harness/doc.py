"""Rendering abstract documents (spec/Doc.tla) into concrete files, and resolving expected results."""

from __future__ import annotations

import re

from harness.core import Machinery, Near

SPECIES = ["H", "He", "Li", "C", "N", "O", "Na", "Si", "Cl", "Fe", "Cu", "U", "Ag", "Mg", "B", "K", "P", "S", "V", "W"]
WORDS = ["alpha", "beta", "gamma", "delta", "omega", "sigma", "kappa"]

TAGS = [":tag", ":tag", ":1", ":12", ":a1", ":T_3", ":x", ":Up"]
LABELS = ["[a-b]", "[a-b]", "[up]", "[3]", "[A_1.x]"]


class Row:
    """Columns of one row: every call formats a fresh value and remembers it."""

    def __init__(self, doc, r):
        self.doc = doc
        self.r = r

    def _keep(self, c, v):
        k = (self.r, str(c))
        if k in self.doc.values:
            raise Machinery(f"column {k} rendered twice")
        self.doc.values[k] = v
        return v

    def put(self, c, text, value):
        self._keep(c, value)
        return text

    def f(self, c, spec="12.5f", lo=-9.0, hi=9.0, lower=False):
        """A float formatted with `spec`; what the reader must see is float(text)."""
        rng = self.doc.rng
        if (old := self.doc.echo((spec, lo, hi, lower))) is not None:
            self._keep(c, float(old))
            return old
        p = rng.random()
        if p < 0.06:
            x = 0.0
        elif p < 0.1:
            x = float(round(rng.uniform(lo, hi)))
        else:
            x = rng.uniform(lo, hi)
        x = min(max(x, lo), hi)
        if spec == "ld" and rng.random() < 0.5:
            x *= 10.0 ** -rng.randint(1, 30)
        text = fmt_float(x, spec)
        if lower:
            text = text.lower()
        self._keep(c, float(text))
        self.doc.said((spec, lo, hi, lower), text)
        return text

    def i(self, c, spec="5d", lo=0, hi=99):
        old = self.doc.echo((spec, lo, hi))
        v = self.doc.rng.randint(lo, hi) if old is None else old
        self.doc.said((spec, lo, hi), v)
        self._keep(c, v)
        return format(v, spec)

    def s(self, c, spec="", pool=WORDS):
        v = self.doc.rng.choice(pool)
        self._keep(c, v)
        return format(v, spec)

    def n(self, lo=1, hi=99, spec="d"):
        """An integer nobody reads back."""
        return format(self.doc.rng.randint(lo, hi), spec)

    def x(self, spec="12.5f", lo=-9.0, hi=9.0):
        """A float nobody reads back."""
        return fmt_float(self.doc.rng.uniform(lo, hi), spec)

    def fs(self, n, spec="12.5f", sep=" ", lo=-9.0, hi=9.0, start=1):
        return sep.join(self.f(k, spec, lo, hi) for k in range(start, start + n))

    def name(self, sym):
        return self.doc.sub(sym)


def fmt_float(x, spec):
    """Like format(), plus `w.dE3` and `w.dE2`: Fortran ES with a three-digit exponent, and Fortran E."""
    if spec == "ld":
        return list_directed(x)
    if spec.endswith("E2"):
        w, d = spec[:-2].split(".")
        m, e = format(abs(x), f".{int(d) - 1}E").split("E")
        e = 0 if float(m) == 0 else int(e) + 1
        t = "0." + m.replace(".", "") + f"E{e:+03d}"
        if x < 0:
            t = "-" + (t if len(t) < int(w or 99) else t[1:])
        return t.rjust(int(w or 0))
    if spec.endswith("E3"):
        w, d = spec[:-2].split(".")
        t = format(x, f".{d}E")
        m, e = t.split("E")
        return f"{m}E{int(e):+04d}".rjust(int(w or 0))
    return format(x, spec)


def list_directed(x):
    """A double as Fortran's list-directed output writes it: 16 digits, fixed or 0.ddddE+ee."""
    if x == 0.0:
        return "0.000000000000000"
    e = int(f"{abs(x):.15E}".split("E")[1]) + 1
    if 0 <= e < 16:
        return f"{x:.{16 - max(e, 1)}f}"
    t = f"{abs(x):.15E}".replace(".", "").split("E")[0]
    return ("-." if x < 0 else "0.") + t + f"E{e:+03d}"


class Document:
    def __init__(self, rng, templates, pools=None, joiner=""):
        self.rng = rng
        self.templates = templates
        self.values: dict = {}
        self.used: set = set()
        self.names: dict = {}
        self.pools = pools or {}
        self.joiner = joiner
        self.parts: list = []
        # in some documents values coincide: equal entries, repeated rows, symmetric tensors
        self.echoes = rng.choice((0, 0, 0, 0.3, 0.9))
        self.told: dict = {}
        # how species of one element are told apart in this document
        self.tag, self.label = rng.choice(TAGS), rng.choice(LABELS)

    def echo(self, kind):
        """Something already printed with this format, or None."""
        if self.echoes and kind in self.told and self.rng.random() < self.echoes:
            return self.rng.choice(self.told[kind])
        return None

    def said(self, kind, what):
        if self.echoes:
            self.told.setdefault(kind, []).append(what)

    def sub(self, sym):
        """Concrete name of a symbolic one ("@sp1"); same symbol, same name; same class, distinct names."""
        if not isinstance(sym, str) or not sym.startswith("@"):
            return sym
        m = re.match(r"(@[a-z]+\d*)([^a-z0-9].*)$", sym)
        if m:               # a suffix such as ":tag" follows the name
            return self.sub(m[1]) + m[2].replace(":tag", self.tag).replace("[a-b]", self.label)
        if sym not in self.names:
            cls = sym[1:].rstrip("0123456789")
            pool = self.pools.get(cls) or {"sp": SPECIES}.get(cls, WORDS)
            taken = {v for k, v in self.names.items() if k[1:].rstrip("0123456789") == cls}
            free = [x for x in pool if x not in taken]
            if not free:
                raise Machinery(f"name pool {cls} exhausted")
            self.names[sym] = self.rng.choice(free)
        return self.names[sym]

    def render(self, rows):
        for r, row in enumerate(rows, 1):
            t, a = row[0], row[1]
            if t not in self.templates:
                raise Machinery(f"no template {t}")
            out = self.templates[t](Row(self, r), *(a if isinstance(a, list) else [a]))
            self.parts.append(out)
        if self.parts and isinstance(self.parts[0], bytes):
            return b"".join(self.parts)
        return "".join(self.parts)

    def value(self, r, c):
        k = (r, str(c))
        if k not in self.values:
            raise Machinery(f"expected result refers to {k}, which no row wrote")
        self.used.add(k)
        return self.values[k]

    def resolve(self, e):
        if isinstance(e, dict):
            if "ref_" in e:
                if e["ref_"] == "l":
                    return self.sub(e["v"])
                if e["ref_"] == "n":
                    return None
                v = self.value(e["r"], e["c"])
                if e["ref_"] == "o":
                    return v
                conv = {"f": float, "i": int, "s": str, "c": complex, "b": bool, "a": Near}[e["ref_"]]
                return conv(v)
            if "cpl_" in e:
                return complex(*[self.resolve(x) for x in e["cpl_"]])
            if "join_" in e:
                return "\n".join(self.resolve(x) for x in e["join_"])
            if "cat_" in e:
                return "".join(self.resolve(x) for x in e["cat_"])
            if "calc_" in e:
                tot = 0.0
                for num, den, refs in e["calc_"]:
                    x = num / den
                    for ref in refs:
                        x *= self.resolve(ref)
                    tot += x
                return Near(tot)
            if "dec_" in e:
                return float(e["dec_"])
            if "map_" in e:
                return {self.key(k): self.resolve(v) for k, v in e["map_"]}
            return {self.key(k): self.resolve(v) for k, v in e.items() if k != "mapping_"}
        if isinstance(e, list):
            return [self.resolve(x) for x in e]
        return self.sub(e)

    def key(self, k):
        k = self.resolve(k)
        return tup(k)

    def unused(self):
        return sorted(set(self.values) - self.used)


def tup(k):
    return tuple(tup(x) for x in k) if isinstance(k, list) else k
