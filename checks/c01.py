"""C01: the lazy MD/geom reader against spec/MDGeomLazy.tla."""

import json

from harness import core, mdgeom
from harness.walk import Graph, key

SHAPES = [
    ([("E", 1, 3), ("T", 1, 1), ("h", 3, 3)], [("Si", 1), ("Si", 2)], ["R", "V", "F"]),
    ([("E", 1, 3), ("T", 1, 1), ("P", 1, 1), ("h", 3, 3), ("hv", 3, 3), ("S", 3, 3)],
     [("H", 1), ("O", 1), ("O", 2)], ["R", "V", "F"]),
    ([("E", 1, 2), ("h", 3, 3)], [("Fe:mm", 1), ("Fe", 10)], ["R", "F"]),
    ([("E", 1, 1)], [("Cu", 1)], ["R"]),
]
HEADERS = [[" "], ["A comment"], ["Two lines", " of comment"], ["Größe µ Å"], None, []]


def make(rng, d, n, shape, head):
    rows, ions, fields = SHAPES[shape]
    text = mdgeom.header(HEADERS[head]) if HEADERS[head] is not None else ""
    frames = []
    for _ in range(n):
        t, e = mdgeom.frame(rng, ions=ions, rows=rows, fields=fields)
        text += t
        frames.append(e)
    f = d / f"t{n}_{shape}_{head}.{'md' if shape % 2 == 0 else 'geom'}"
    f.write_text(text, encoding="utf-8")
    return f, frames


class Impl:
    """The real reader driven by operation descriptors."""

    def __init__(self, path):
        from castep_outputs.tools.md_geom_parser import MDGeomParser
        self.p = MDGeomParser(path)
        self.it = {}

    def do(self, op):
        p, name = self.p, op[0]
        conv = lambda v: None if v == -99 else v  # noqa: E731
        if name == "len":
            return len(p)
        if name == "next_frame":
            return p.next_frame
        if name == "get":
            return p[op[1]]
        if name == "get_frame":
            return p.get_frame(op[1])
        if name == "list":
            return p[tuple(op[1])] if len(op[1]) % 2 else p[list(op[1])]
        if name == "slice":
            return p[conv(op[1]):conv(op[2]):conv(op[3])]
        if name == "read_next":
            return p.read_next()
        if name == "all":
            return list(p)
        if name == "iter":
            self.it[op[1]] = iter(p)
            return None
        if name == "drop":
            del self.it[op[1]]
            return None
        if name == "next":
            return next(self.it[op[1]])
        if name == "send":
            return self.it[op[1]].send(op[2])
        raise core.Machinery(f"unknown op {op}")


def expected(x, frames):
    return {"frame": lambda: ("ok", frames[x[1]]),
            "frames": lambda: ("ok", [frames[i] for i in x[1]]),
            "int": lambda: ("ok", x[1]), "none": lambda: ("ok", None), "ok": lambda: ("ok", None),
            "IndexError": lambda: ("err", "IndexError"),
            "Stop": lambda: ("err", "StopIteration")}[x[0]]()


def check_obs(x, frames, got):
    exp = expected(x, frames)
    if exp[0] == "err":
        if got[0] == "ok":
            return f"expected {exp[1]}, got {core.short(got[1])}"
        return None if got[1] == exp[1] else f"expected {exp[1]}, got {got[1]}: {got[2]}"
    if got[0] == "err":
        return f"raised {got[1]}: {got[2]}"
    return core.compare(exp[1], got[1])


def replay(chk, path, frames, graph, walk, n):
    impl = core.observe(Impl, path)
    if impl[0] == "err":
        chk.violation(f"opening a {n}-frame trajectory raised {impl[1]}: {impl[2]}",
                      {"file": path.read_text(), "ops": []})
        return
    impl = impl[1]
    for k, i in enumerate(walk):
        _, op, x, _ = graph.edges[i]
        got = core.observe(impl.do, op)
        if d := check_obs(x, frames, got):
            chk.violation(f"{n} frames, after {k} operations, {op}: {d}",
                          {"file": path.read_text(), "ops": [graph.edges[j][1] for j in walk[: k + 1]]})
            return
        if got[0] == "ok" and isinstance(got[1], dict) and k % 5 == 0:
            got[1].clear()      # a caller may do what it likes with its frame
    chk.validated()


def run(chk):
    from castep_outputs.parsers.md_geom_file_parser import parse_md_file

    res = chk.model(core.tlc("MDGeomLazy", consts={"MaxN": 3, "Slices": True}, invariants=["TypeOK"],
                             properties=["OnlyOneIterMoves", "FileFixed"], workers=4))
    g = Graph(res.out)
    chk.note("model_transitions_distinct", len(g.edges))
    with core.scratch() as d:
        # every transition of the model, on real files
        for n in (1, 2, 3):
            shape, head = chk.rng.randrange(len(SHAPES)), chk.rng.randrange(len(HEADERS))
            path, frames = make(chk.rng, d, n, shape, head)
            eager = core.observe(parse_md_file, path)
            if eager[0] == "err" or core.compare(frames, eager[1]):
                chk.violation(f"eager parse of {n} frames: "
                              f"{eager[1:] if eager[0] == 'err' else core.compare(frames, eager[1])}",
                              {"file": path.read_text()})
                return
            start = key([n, 0, [-3, -3]])
            if start not in g.adj:
                raise core.Machinery("initial state missing from graph")
            for _, walk in g.tour([start], chk.rng, maxlen=300):
                if chk.full:
                    return
                replay(chk, path, frames, g, walk, n)
                chk.bump("edge_tour_steps", len(walk))
        # long random histories: longer trajectories, every layout
        res = chk.model(core.tlc("MDGeomLazy", consts={"MaxN": chk.pick(5, 7), "Slices": False}, workers=4,
                                 invariants=["TypeOK"], properties=["OnlyOneIterMoves", "FileFixed"]))
        g2 = Graph(res.out)
        for shape in range(len(SHAPES)):
            for head in range(len(HEADERS)):
                for _ in range(chk.pick(1, 8)):
                    if chk.full:
                        return
                    n = chk.rng.randint(1, chk.pick(5, 7))
                    path, frames = make(chk.rng, d, n, shape, head)
                    eager = core.observe(parse_md_file, path)
                    if eager[0] == "err" or core.compare(frames, eager[1]):
                        chk.violation(f"eager parse, layout {shape}/{head}: {core.short(eager[1:], 300)}",
                                      {"file": path.read_text()})
                        continue
                    walk = g2.random_walk(key([n, 0, [-3, -3]]), chk.rng, chk.pick(150, 400))
                    replay(chk, path, frames, g2, walk, n)
                    chk.bump("random_steps", len(walk))
        chk.sample({"frames": 3, "ops": [g2.edges[i][1] for i in walk[:12]],
                    "expected": [g2.edges[i][2] for i in walk[:12]]})
    chk.assumptions.append("frames have equal size and are each followed by a blank line, as CASTEP writes them")
