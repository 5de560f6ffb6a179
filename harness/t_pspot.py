"""Tokens of on-the-fly pseudopotential strings."""


def keep(v, text):
    return v.put("t", text, text)


def num(v, c, hi=20):
    """An unsigned number as written in these strings."""
    r = v.doc.rng
    t = r.choice([f"{r.randint(0, hi)}", f"{r.uniform(0, hi):.{r.randint(1, 4)}f}", f".{r.randint(0, 99):02d}"])
    return v.put(c, t, float(t)) if c else t


def local(v, poly, energy):
    r = v.doc.rng
    t = "-" if poly == "before" else ""
    t += f"{num(v, 'e')}=" if energy else ""
    n = r.randint(0, 4)
    t += v.put("l", str(n), n) + ("-" if poly == "after" else "") + "|"
    return keep(v, t)


def radii(v, six):
    cols = (1, 2, 3, 4, 5, 6) if six else (1, 4, 5, 6)
    return keep(v, "".join(num(v, c) + "|" for c in cols))


def group(v, first, l):
    n = v.doc.rng.randint(1, 9)
    return keep(v, ("" if first else ":") + v.put("o", str(n), n) + str(l))


def proj(v, t, rc, e, d):
    out = t + (num(v, "rc", v.doc.rng.choice((4, 40))) if rc else "")
    if e:
        x = num(v, None, v.doc.rng.choice((3, 30)))
        out += e + v.put("e", x, -float(x) if e.endswith("-") else float(x))
    return keep(v, out + ("@" + num(v, "d", v.doc.rng.choice((2, 25))) if d else ""))


def items(v, n, pool):
    out = []
    for k in range(1, n + 1):
        out.append(v.put(k, *[v.doc.rng.choice(pool)] * 2))
    return ",".join(out)


SHELLS = ["3s2", "3p1.5", "3d0.25", "1s1", "5s0.5", "4f14", "3d10", "6p", "2s2.", "4f0.1"]
FLAGS = ["qc=8", "qc=6.5", "tm", "nonlcc", "pbe", "q6=2", "schro", "scpsp"]

T = {
    "local": local, "radii": radii, "group": group, "proj": proj,
    "flags": lambda v, n: keep(v, "(" + items(v, n, FLAGS) + ")"),
    "adjustment": lambda v, n: keep(v, "{" + items(v, n, SHELLS) + "}"),
    "testing": lambda v, n: keep(v, "[" + items(v, n, SHELLS) + "]"),
}
