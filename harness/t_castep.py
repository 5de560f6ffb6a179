"""Rows of spec/CastepSections.tla: literal lines, and lines whose columns are given by a format string.

`{f1:20.5f|lo|hi}` column 1 holds a float, `{i2:5d|lo|hi}` an integer, `{s3:spec}` a word, `{w3:spec}` a label; `{x:12.5f|lo|hi}` and
`{n:d|lo|hi}` are numbers nobody reads; `{0:<14}` is the row's argument 0, a symbolic name standing for its choice."""

import re

LABELS = ["alpha", "a-b", "x'1", "L_2", "c.3", "7"]
FIELD = re.compile(r"\{(?P<id>[^:{}|]+)(?::(?P<spec>[^{}|]*))?(?:\|(?P<lo>[^{}|]+)\|(?P<hi>[^{}|]+))?\}")


def line(v, fmt, *args):
    def field(m):
        id, spec = m["id"], m["spec"] or ""
        if id.isdigit():
            a = v.name(args[int(id)])
            return format(a, spec)
        kind, col = id[0], id[1:]
        rng = (float(m["lo"]), float(m["hi"])) if m["lo"] else None
        if kind == "f":
            return v.f(col, spec, *(rng or (-9.0, 9.0)))
        if kind == "i":
            lo, hi = rng or (0, 99)
            return v.i(col, spec or "d", int(lo), int(hi))
        if kind == "s":
            return v.s(col, spec)
        if kind == "w":
            return v.s(col, spec, LABELS)
        if kind == "x":
            return v.x(spec, *(rng or (-9.0, 9.0)))
        if kind == "n":
            lo, hi = rng or (0, 99)
            return v.n(int(lo), int(hi), spec or "d")
        raise ValueError(f"field {id} of {fmt}")

    return FIELD.sub(field, fmt) + "\n"


T = {"=": lambda v, s: s + "\n", "~": line}
