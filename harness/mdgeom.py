"""Rendering of .md/.geom trajectories."""

TAGS = {"E": "energy", "T": "temperature", "P": "pressure", "h": "lattice_vectors",
        "hv": "lattice_velocity", "S": "stress", "R": "position", "V": "velocity", "F": "force"}


def num(rng):
    """A double as CASTEP prints it (ES26.16E3), and its value."""
    e = rng.choice([0, 0, 1, -1, 2, -3, 5, -7, -12, 0, -123])
    m = rng.choice([0.0, 1.0]) if rng.random() < 0.08 else rng.uniform(1, 10)
    if rng.random() < 0.5:
        m = -m
    sign = "-" if m < 0 else " "
    text = f"{abs(m):.16f}"
    if text.startswith("10"):
        text = "9." + "9" * 16
    text = f"{sign}{text}E{e:+04d}"
    return text, float(text)


def header(comment_lines):
    return "".join(["  BEGIN header\n", *[f"  {c}\n" for c in comment_lines], "  END header\n", " \n"])


def frame(rng, *, ions, rows, label="time", fields=None):
    """One frame. rows: ordered tags with counts, e.g. [("E", 1, 3), ("h", 3, 3)]; ions: list of (spec, index)."""
    out, exp = [], {"ions": {}}
    t, tv = num(rng)
    out.append(f"{' ' * 20}{t}\n")
    exp["time"] = tv
    for tag, count, width in rows:
        for _ in range(count):
            vals = [num(rng) for _ in range(width)]
            text = "    ".join(v[0] for v in vals)
            out.append(f"{' ' * 20}{text:<84}  <-- {tag}\n")
            exp.setdefault(tag, []).append([v[1] for v in vals])
    for tag in ("R", "V", "F"):
        if fields is not None and tag not in fields:
            continue
        for spec, ind in ions:
            vals = [num(rng) for _ in range(3)]
            out.append(f" {spec:<8}{ind:8d}   " + "   ".join(v[0] for v in vals) + f"  <-- {tag}\n")
            exp["ions"].setdefault((spec, ind), {})[tag] = [v[1] for v in vals]
    out.append("\n")
    for d in (exp, *exp["ions"].values()):
        for k, v in list(d.items()):
            if k in TAGS:
                d[TAGS[k]] = v
    return "".join(out), exp
