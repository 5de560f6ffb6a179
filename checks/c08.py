"""C08: sessions of parses (spec/Session.tla) give what a fresh interpreter gives."""

from harness import core
from harness.contents import BINARY, library
from harness.session import Impl, outcome
from harness.walk import Graph


def run(chk):
    lib = library(chk.seed, core.REPO, chk.pick(12, 40))
    for typ, kinds in lib.items():
        for kind in kinds:
            kinds[kind] = [x for x in kinds[kind] if x[1][:2] != ("err", "Hang")]
        bad = [o for _, o in kinds["good"] if o[0] != "ok"]
        if bad:
            chk.violation(f"{typ}: a sample file does not parse: {bad[0][1:]}", {"type": typ})
            kinds["good"] = [x for x in kinds["good"] if x[1][0] == "ok"]
        if not kinds["good"]:
            return
    chk.note("contents", sum(len(x) for k in lib.values() for x in k.values()))
    chk.note("contents_failing", sum(o[0] == "err" for k in lib.values() for _, o in k["bad"]))
    text = sorted(set(lib) - BINARY)
    edges = []
    res = core.tlc("Session", consts={"Types": {"text1", "text2", "bin"}, "Contents": {"good", "bad"}, "Slots": 1,
                                      "Rich": not chk.quick}, invariants=["NothingHeld"], properties=["HandlesKept"], workers=4)
    chk.model(res)
    edges = res.out
    g = Graph(edges)
    chk.note("model_transitions_distinct", len(g.edges))
    start = next(k for k in g.adj if '"-"' in k and '"none"' in k and '["-", "-"], "here"' in k)
    with core.scratch() as d:
        k = 0

        def walks():
            for _ in range(chk.pick(1, 4)):
                for _, w in g.tour([start], chk.rng, maxlen=120):
                    yield w
            for _ in range(chk.pick(40, 400)):
                yield g.random_walk(start, chk.rng, 120)

        for walk in walks():
            # every pair of types meets: draw two types in a shuffled round robin
            a, b = chk.rng.sample(text, 2)
            m = Impl(chk.rng, d, lib, {"text1": a, "text2": b, "bin": chk.rng.choice(sorted(BINARY))})
            try:
                for step, i in enumerate(walk):
                    op = g.edges[i][1]
                    try:
                        r = m.do(op)
                        e = outcome(r) if r is not None else None
                    except AssertionError as err:
                        e = str(err)
                    if e is None and step == len(walk) - 1:
                        e = m.kept_changed()
                    if e:
                        chk.violation(f"step {step + 1} {op}: {e}", {"types": m.types, "ops": [g.edges[j][1] for j in walk[: step + 1]]})
                        break
            finally:
                m.end()
            k += 1
            chk.validated()
            chk.bump("steps", len(walk))
            if chk.full:
                return
    chk.sample({"types": m.types, "ops": [g.edges[i][1] for i in walk[:10]]})
    chk.assumptions.append("error messages may differ between routes, their classes may not; the interpreter's default text encoding")
