"""Templates producing Fortran records."""

import struct

from harness.fortran import payload, record, values


def many(typ):
    def t(v, n):
        vals = values(v.doc.rng, typ, n)
        for k, x in enumerate(vals, 1):
            v.put(k, "", x)
        return record(payload(typ, vals))
    return t


def column(v, x, y, n):
    vals = values(v.doc.rng, "cplx", n)
    for k, z in enumerate(vals, 1):
        v.put(k, "", z)
    return record(payload("int", [x, y]) + payload("cplx", vals))


def partial(v, row=None):
    """A record (the given row's, if any) whose last bytes are missing."""
    rec = record(payload("float", values(v.doc.rng, "float", 3))) if row is None else T[row[0]](v, *row[1])
    r = v.doc.rng
    return rec[:r.choice([r.randint(1, 3), 4, r.randrange(1, len(rec)), len(rec) - r.randint(1, 4), len(rec) - 1])]


def integer(v, what):
    x = v.doc.rng.randint(1, 30)
    v.put(1, "", x)
    return record(struct.pack(">i", x))


T = {
    "ints": lambda v, *vals: record(payload("int", list(vals))),
    "int": integer,
    "str": lambda v, text: record(text.encode()),
    "name": lambda v, sp: record(f"{v.name(sp):<8}".encode()),
    "floats": many("float"),
    "cplx": many("cplx"),
    "column": column,
    "partial": partial,
}
