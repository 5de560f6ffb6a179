"""C11: combined output of several inputs, against spec/Output.tla."""

import contextlib
import functools
import io
import json
import os
import pathlib

from harness import cli, core
from harness.contents import functions, library
from harness.walk import Graph

OTHER = ["already here\n", "{\"old\": 1}\n", "no newline at the end", "\n\n", "---\nx: 1\n", "Å µ\n"]


class Impl:
    def __init__(self, rng, lib, root, start):
        self.rng, self.lib, self.root = rng, lib, root
        self.outdir = root / "out"
        self.outdir.mkdir()
        self.path = self.outdir / rng.choice(["all.json", "result.yaml", "x"])
        self.text = {"file": None, "stdout": "", "stream": ""}
        if start == [["other"]]:
            self.text["file"] = rng.choice(OTHER)
            self.path.write_text(self.text["file"], encoding="utf-8")
        elif rng.random() < .3:
            self.path.write_text("")
            self.text["file"] = ""
        self.kept = root / "held"
        self.stream = io.StringIO() if rng.random() < .5 else self.kept.open("w", encoding="utf-8")
        self.inputs = {}

    def input(self, sym):
        """(type, path, value) of an input, made when first used."""
        if sym in self.inputs:
            return self.inputs[sym]
        r = self.rng
        typ = r.choice(sorted(self.lib))
        d = self.root / sym                     # same names in different directories
        d.mkdir(exist_ok=True)
        p = d / f"{r.choice(['Si', 'run', 'Si.1'])}.{r.choice([typ, typ, 'txt'])}"
        value = None
        if sym.startswith("g"):
            data, value = r.choice(self.lib[typ]["good"])
            p.write_bytes(data)
        elif sym.startswith("x"):
            bad = [c for c, o in self.lib[typ]["bad"] if o[0] == "err" and o[1] != "Hang"]
            if bad:
                p.write_bytes(r.choice(bad))
            else:
                p.mkdir()                       # cannot be read
        self.inputs[sym] = (typ, p, value)
        return self.inputs[sym]

    def streamed(self):
        """What the stream the caller holds has been given; it stays the caller's."""
        if self.stream.closed:
            raise AssertionError("the stream the caller holds was closed")
        if isinstance(self.stream, io.StringIO):
            return self.stream.getvalue()
        self.stream.flush()
        return self.kept.read_text(encoding="utf-8")

    def run(self, q, dest):
        """(outcome, the text this run added, expected mapping) after checking nothing else changed."""
        from castep_outputs.cli.castep_outputs_main import parse_all
        r = self.rng
        fmt = self.fmt = r.choice(cli.FORMATS)
        files, keys = {}, {}
        for sym in q:
            typ, p, value = self.input(sym)
            arg = r.choice([p, str(p), p.relative_to(self.root), str(p.relative_to(self.root))])
            files.setdefault(typ, []).append(arg)
            keys[str(arg)] = (typ, p, value)
        if r.random() < .3:
            files.setdefault(r.choice(sorted(self.lib)), [])
        os.chdir(self.root)
        testing = self.testing = r.random() < .12
        if testing and not any(s_.startswith(("x", "m")) for s_ in q):
            from castep_outputs.parsers.castep_file_parser import Filters
            for k, (typ, p, value) in keys.items():
                if typ == "castep":
                    value = functions()[typ](p, filters=Filters.TESTING)
                keys[k] = (typ, p, value)
        keys = {k: v for k, (_, _, v) in keys.items()}
        use_main = dest != "stream" and r.random() < .5
        out = io.StringIO()
        if use_main:
            argv = ["-f", fmt] + ([r.choice(["-t", "--testing"])] if testing else [])
            for typ, paths in files.items():
                argv += [f"--{typ}", *map(str, paths)]
            if dest == "file":
                argv += [r.choice(["-o", "--output"]), str(r.choice([self.path, self.path.relative_to(self.root)]))]
            got = cli.main(argv)
            out.write(got[-1])
        else:
            target = {"file": r.choice([self.path, str(self.path)]), "stdout": None, "stream": self.stream}[dest]
            with contextlib.redirect_stdout(out):
                got = core.observe(parse_all, target, fmt, seconds=30, **({"testing": True} if testing else {}), **{t: r.choice([list, tuple])(p) for t, p in files.items()})
        os.chdir("/")
        now = {"file": self.path.read_text(encoding="utf-8") if self.path.exists() else None,
               "stdout": self.text["stdout"] + out.getvalue(), "stream": self.streamed()}
        added = None
        for place, old in self.text.items():
            if place == dest:
                if not (now[place] or "").startswith(old or ""):
                    raise AssertionError(f"what the {place} held before is gone")
                added = (now[place] or "")[len(old or ""):] if now[place] is not None else None
                if got[0] == "err" and now[place] != old:
                    raise AssertionError(f"the run failed and yet wrote to the {place}: {core.short(now[place])}")
            elif now[place] != old:
                raise AssertionError(f"a run writing to the {dest} changed the {place}")
        if extra := [p.name for p in self.outdir.iterdir() if p != self.path]:
            raise AssertionError(f"files left beside the output: {extra}")
        self.text = now
        return got, added, keys


def verdict(m, x, got, added, keys):
    if x[0] == "raises":
        return None if got[0] == "err" else "an input fails to parse and no error is raised"
    if got[0] == "err":
        return f"raised {got[1]}: {got[2]}"
    if not added:
        return "nothing was written"
    back = core.observe(cli.read, m.fmt, added)
    if back[0] == "err":
        return f"{m.fmt}: the written document cannot be read: {back[1]}: {back[2][:200]}"
    form = functools.partial(cli.expected, m.fmt) if not m.testing else lambda v: cli.flat(v)
    if x[0] == "none":
        want = {}
    elif x[0] == "bare":
        want = form(next(iter(keys.values())))
    else:
        want = {k: form(v) for k, v in keys.items()}
    e = core.compare(want, back[1])
    return f"{m.fmt}, {len(keys)} inputs: {e}" if e else None


def run(chk):
    lib = library(chk.seed, core.REPO, chk.pick(12, 40))
    for t, kinds in lib.items():
        kinds["good"] = [(c, o[1]) for c, o in kinds["good"] if o[0] == "ok" and (len(c) < 9000 or t == "castep")][: 1 if t == "castep" else 9]
    lib = {t: k for t, k in lib.items() if k["good"]}
    res = chk.model(core.tlc("Output", consts={"Good": {"g1", "g2", "g3"}, "Bad": {"x1", "m1"}, "MaxInputs": 3, "MaxRuns": chk.pick(1, 2)},
                             properties=["Appends", "OneDoc"], workers=4))
    g = Graph(res.out)
    chk.note("model_transitions_distinct", len(g.edges))
    res = chk.model(core.tlc("Output", consts={"Good": {"g1", "g2"}, "Bad": {"x1"}, "MaxInputs": 2, "MaxRuns": chk.pick(2, 3)},
                             properties=["Appends", "OneDoc"], workers=4))
    h = Graph(res.out)
    chk.note("model_transitions_distinct", len(g.edges) + len(h.edges))

    def walks():
        for gr, n in ((g, chk.pick(900, 6000)), (h, chk.pick(1200, 6000))):
            starts = [k for k in gr.adj if k.endswith(", 0]")]
            for _ in range(n // 3 if gr is h else n // 2):
                yield gr, gr.random_walk(chk.rng.choice(starts), chk.rng, 10)
            ws = [w for s in starts for _, w in gr.tour([s], chk.rng, maxlen=10)]
            for w in (ws if len(ws) < n else chk.rng.sample(ws, n)):
                yield gr, w

    for gr, walk in walks():
        with core.scratch() as d:
            d = pathlib.Path(os.path.realpath(d))
            start = json.loads(gr.edges[walk[0]][0])[0]
            m = Impl(chk.rng, lib, d, start)
            for k, i in enumerate(walk):
                _, op, x, _ = gr.edges[i]
                try:
                    e = verdict(m, x, *m.run(op[1], op[2]))
                except AssertionError as err:
                    e = str(err)
                if e:
                    chk.violation(f"run {k + 1} {op[1:]}: {e}",
                                  {"runs": [gr.edges[j][1] for j in walk[: k + 1]], "format": m.fmt,
                                   "inputs": {s: (t, str(p)) for s, (t, p, _) in m.inputs.items()}})
                    break
            chk.validated()
            chk.bump("runs", len(walk))
            if chk.full:
                return
    chk.sample({"runs": [gr.edges[i][1] for i in walk]})
    chk.assumptions += ["each path is given once; a failing destination is outside"]
