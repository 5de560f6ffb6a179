"""C09: files opened by parsers are closed, the caller's never (spec/Session.tla, with failing reads)."""

import os

from harness import core
from harness.contents import BINARY, functions, library
from harness.session import Impl, descriptors, opened, stream, FaultyRaw
from harness.walk import Graph


def handles(m, r, before, slots):
    """Complaint about open files after a parse, or None."""
    if left := [f for f in r["seen"] if not f.closed]:
        return f"{r['typ']}: {len(left)} file(s) opened by the parser still open after it {'returned' if r['got'][0] == 'ok' else 'raised ' + r['got'][1]}"
    for i, s in m.slots.items():
        if s["h"].closed:
            return f"{r['typ']}: the caller's handle was closed ({'result' if r['got'][0] == 'ok' else r['got'][1]})"
    if m.slots.keys() != set(slots):
        raise core.Machinery("slots out of step with the model")
    if descriptors() != before:
        return f"{r['typ']}: {descriptors() - before:+d} file descriptors after the call"
    return None


def sessions(chk, lib, d):
    text = sorted(set(lib) - BINARY)
    res = chk.model(core.tlc("Session", consts={"Types": {"text1", "text2", "bin"} if not chk.quick else {"text1", "bin"}, "Contents": {"good", "bad", "fault"},
                                                "Slots": chk.pick(1, 2), "Rich": False}, workers=4, heap="6g",
                             invariants=["NothingHeld"], properties=["HandlesKept"]))
    g = Graph(res.out)
    chk.note("model_transitions_distinct", len(g.edges))
    start = next(k for k in g.adj if '"here"' in k and k.count('["-", "-"]') == chk.pick(2, 3))

    def walks():
        if chk.quick:
            for _, w in g.tour([start], chk.rng, maxlen=120):
                yield w
        for _ in range(chk.pick(40, 2500)):
            yield g.random_walk(start, chk.rng, 120)

    for walk in walks():
        a, b = chk.rng.sample(text, 2)
        m = Impl(chk.rng, d, lib, {"text1": a, "text2": b, "bin": chk.rng.choice(sorted(BINARY))})
        try:
            for step, i in enumerate(walk):
                _, op, x, _ = g.edges[i]
                before = descriptors()
                try:
                    r = m.do(op)
                    e = handles(m, r, before, x["open"]) if r is not None else None
                except AssertionError as err:
                    e = str(err)
                if e:
                    chk.violation(f"step {step + 1} {op}: {e}", {"types": m.types, "ops": [g.edges[j][1] for j in walk[: step + 1]]})
                    break
        finally:
            m.end()
        chk.validated()
        chk.bump("steps", len(walk))
        if chk.full:
            return
    chk.sample({"types": m.types, "ops": [g.edges[i][1] for i in walk[:10]]})


def sweep(chk, lib, d):
    """Every content cut after each line (binary: at many bytes), and failing reads there, by path and by handle."""
    for typ, fn in functions().items():
        goods = [c for c, _ in lib[typ]["good"]]
        for data in chk.rng.sample(goods, min(len(goods), chk.pick(1, 4))):
            if typ in BINARY:
                cuts = range(0, len(data), chk.pick(29, 3))
            else:
                cuts, at = [], 0
                for line in data.splitlines(keepends=True):
                    cuts += [at, at + len(line) // 2]
                    at += len(line)
                n = chk.pick(120, 1000)
                if len(cuts) > n:
                    cuts = sorted(chk.rng.sample(cuts, n))
            path = d / f"cut.{typ}"
            for cut in cuts:
                path.write_bytes(data[:cut])
                before = descriptors()
                for what, faults in (("cut", {}), ("read failing", {os.path.realpath(path): (typ, cut)})):
                    with opened(faults) as seen:
                        got = core.observe(fn, chk.rng.choice([path, str(path)]))
                    how = "returned" if got[0] == "ok" else f"raised {got[1]}"
                    if any(not f.closed for f in seen):
                        chk.violation(f"{typ}, {what} at byte {cut}: the file opened from a path is still open after the parser {how}",
                                      {"type": typ, "content": data[:cut].hex()})
                raw = FaultyRaw(data[:cut], cut)
                raw.armed = chk.rng.random() < .5       # fails at the cut, or simply ends there
                h = stream(typ, raw)
                got = core.observe(fn, h)
                if h.closed:
                    chk.violation(f"{typ}, cut at byte {cut}: the caller's stream was closed", {"type": typ, "content": data[:cut].hex()})
                else:
                    h.seek(0)
                    h.close()
                del seen
                if descriptors() != before:
                    chk.violation(f"{typ}, cut at byte {cut}: {descriptors() - before:+d} file descriptors", {"type": typ, "content": data[:cut].hex()})
                chk.bump("cut_points")
                if chk.full:
                    return


def run(chk):
    lib = library(chk.seed, core.REPO, chk.pick(12, 40))
    for kinds in lib.values():
        for kind in kinds:
            kinds[kind] = [x for x in kinds[kind] if x[1][:2] != ("err", "Hang")]
        kinds["good"] = kinds["good"] or kinds["bad"]
    with core.scratch() as d:
        sessions(chk, lib, d)
        if not chk.full:
            sweep(chk, lib, d)
    os.chdir("/")
    chk.assumptions.append("the lazy trajectory reader keeps its file for its own lifetime, by design")
