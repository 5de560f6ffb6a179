"""C04: Fortran record reader against spec/Records.tla."""

import io
import json

from harness import core, fortran
from harness.walk import Graph, key

PY = {"int": int, "float": float, "cplx": complex, "bool": bool, "str": str}


class Impl:
    def __init__(self, rng, d, kinds, route, n):
        from castep_outputs.bin_parsers.fortran_bin_parser import FortranBinaryReader
        self.kinds = kinds
        self.vals, self.raw = [], []
        for typ, mult in kinds:
            m = mult if mult < 2 else rng.choice([2, 3, 5, 40, 70, 300]) if rng.random() < 0.97 else 20000
            v = fortran.values(rng, typ, m)
            self.vals.append(v)
            self.raw.append(fortran.payload(typ, v, rng.choice((1, 1, -1))))
        data = b"".join(map(fortran.record, self.raw))
        self.data = data
        if route == "file":
            f = d / f"r{n}.bin"
            f.write_bytes(data)
            self.h = f.open("rb")
        elif route == "unbuffered":
            f = d / f"r{n}.bin"
            f.write_bytes(data)
            self.h = f.open("rb", buffering=0)
        else:
            self.h = io.BytesIO(data)
        self.r = FortranBinaryReader(self.h)

    def do(self, op):
        r, name = self.r, op[0]
        if name == "next":
            return next(r)
        if name == "get":
            return r.get(PY[op[1]])
        if name == "getall":
            return r.get((PY[op[1]], ...))
        if name == "skip":
            return r.skip(op[1])
        if name == "rewind":
            return r.rewind(op[1])
        if name == "rewind1":
            return r.rewind()
        if name == "dict":
            return list(r.get_dtype_dict({f"k{i}": (PY[t], ...) for i, t in enumerate(op[1])}).items())
        if name == "iter":
            return list(r.get_dtype_iter([(PY[t], ...) for t in op[1]]))
        if name == "for":
            return [v for _, v in zip(range(op[1]), r)]
        if name in ("cycle", "endless"):
            form, n, types = op[1:]
            arg = {f"k{i}": (PY[t], ...) for i, t in enumerate(types)} if form == "dict" \
                else tuple((PY[t], ...) for t in types)
            gen = r.get_dtype_cycle(arg, n=n) if name == "cycle" else r.get_dtype_cycle(arg)
            out = list(gen) if name == "cycle" else [next(gen) for _ in range(n)]
            return [list(g.values()) if form == "dict" else g for g in out]
        raise core.Machinery(f"unknown op {op}")


def verdict(m, op, x, got):
    if x[0] in ("Stop", "ValueError"):
        want = {"Stop": "StopIteration"}.get(x[0], x[0])
        if got[0] == "ok":
            return f"expected {want}, got {core.short(got[1])}"
        return None if got[1] == want else f"expected {want}, got {got[1]}: {got[2]}"
    if got[0] == "err":
        return f"raised {got[1]}: {got[2]}"
    v = got[1]
    if x[0] == "ok":
        return None
    exp = {"raw": lambda: m.raw[x[1] - 1], "one": lambda: m.vals[x[1] - 1][0],
           "many": lambda: m.vals[x[1] - 1],
           "raws": lambda: [m.raw[i - 1] for i in x[1]],
           "each": lambda: [m.vals[i - 1] for i in x[1]],
           "groups": lambda: [[m.vals[i - 1] for i in g] for g in x[1]]}[x[0]]()
    if op[0] == "dict":
        exp = [[f"k{i}", e] for i, e in enumerate(exp)]
    return core.compare(exp, v)


def drive(chk, d, consts, per, length):
    res = chk.model(core.tlc("Records", consts=consts, invariants=["TypeOK"], properties=["Fixed"], workers=4))
    g = Graph(res.out)
    chk.bump("model_transitions_distinct", len(g.edges))
    starts = sorted(k for k in g.adj if k.endswith("], 0, false]"))
    n = 0
    for start in starts:
        walks = [w for _, w in g.tour([start], chk.rng, maxlen=length)]
        walks += [g.random_walk(start, chk.rng, length) for _ in range(per)]
        for walk in walks:
            n += 1
            kinds = json.loads(start)[0]
            m = Impl(chk.rng, d, kinds, chk.rng.choice(["mem", "mem", "file", "unbuffered"]), n % 20)
            try:
                for k, i in enumerate(walk):
                    _, op, x, _ = g.edges[i]
                    if e := verdict(m, op, x, core.observe(m.do, op)):
                        chk.violation(f"records {kinds}, step {k + 1} {op}: {e}",
                                      {"data": m.data.hex()[:4000], "ops": [g.edges[j][1] for j in walk[: k + 1]]})
                        break
            finally:
                m.h.close()
            chk.validated()
            chk.bump("steps", len(walk))
            if chk.full:
                return
    chk.sample({"records": kinds, "ops": [g.edges[i][1] for i in walk[:12]],
                "expected": [g.edges[i][2] for i in walk[:12]]})


def run(chk):
    with core.scratch() as d:
        drive(chk, d, {"MaxLen": 2, "Kinds": "all"}, 1, 150)
        drive(chk, d, {"MaxLen": chk.pick(3, 4), "Kinds": "few"}, chk.pick(2, 5), 150)
        drive(chk, d, {"MaxLen": chk.pick(5, 7), "Kinds": "two"}, chk.pick(3, 6), 150)
    chk.assumptions.append("moves before the first record and moves after skipping past the last are not constrained")
