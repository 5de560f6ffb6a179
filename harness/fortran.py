"""Writing Fortran sequential unformatted records."""

import struct


def payload(typ, vals, true=1):
    """Bytes of vals; true: how this compiler writes .true. (1, or -1 of others)."""
    return {"int": lambda: struct.pack(f">{len(vals)}i", *vals),
            "float": lambda: struct.pack(f">{len(vals)}d", *vals),
            "cplx": lambda: struct.pack(f">{2 * len(vals)}d", *[p for v in vals for p in (v.real, v.imag)]),
            "bool": lambda: struct.pack(f">{len(vals)}i", *[true if v else 0 for v in vals]),
            "str": lambda: "".join(vals).encode("ascii")}[typ]()


def record(data):
    return struct.pack(">I", len(data)) + data + struct.pack(">I", len(data))


def values(rng, typ, n):
    if typ == "int":
        return [rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randint(-10**6, 10**6)]) for _ in range(n)]
    if typ == "float":
        return [rng.choice([0.0, 1.0, -1.5, 1e-300, rng.uniform(-1e3, 1e3)]) for _ in range(n)]
    if typ == "cplx":
        return [complex(rng.uniform(-5, 5), rng.uniform(-5, 5)) for _ in range(n)]
    if typ == "bool":
        return [rng.random() < 0.5 for _ in range(n)]
    return ["".join(rng.choice("abc XYZ 0123 _-()") for _ in range(n))]
