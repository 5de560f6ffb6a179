"""C26: what is said while parsing, at every log level (spec/Diagnostics.tla), and where it says it is (spec/Echo.tla)."""

import contextlib
import io
import json
import logging
import os
import pathlib
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from harness import castep, core
from harness.contents import BINARY, functions, library
from harness.doc import Document
from harness.t_castep import T
from harness.walk import Graph

LISTINGS, INPUTS, HEADED = ["castep"], ["cell", "param"], ["md", "geom"]
NAMES = {"plain": ["run"], "percent": ["100%", "50%sure", "a%d%b", "%(name)s", "%%", "5%"], "blanks": ["my run", "a  b"],
         "odd": ["a.1.b", "x{0}{}", "run[1]:2", "r\\n", "naïve"]}
OUTSIDE = "  The model has been written to a file"
FROM = re.compile(r"\[(.*?)(?::(\d+))?\] (.*)", re.S)


class Ear(logging.Handler):
    """Everything said, as it would be written; what cannot be written is a complaint."""

    def __init__(self):
        super().__init__(0)
        self.said, self.broken = [], None

    def emit(self, record):
        try:
            self.said.append((record.levelname, record.getMessage()))
        except Exception as err:  # noqa: BLE001
            self.broken = f"the message {record.msg!r} with {record.args!r} cannot be written: {type(err).__name__}: {err}"


@contextlib.contextmanager
def listening(level):
    """Messages of the given level and above, and what was written to the output and error streams."""
    root, ear = logging.getLogger(), Ear()
    saved = root.handlers[:], root.level, logging.root.manager.disable
    logging.disable(logging.NOTSET)
    root.handlers[:] = [ear]
    root.setLevel(level)
    ear.out = io.StringIO()
    try:
        with contextlib.redirect_stdout(ear.out):
            yield ear
    finally:
        root.handlers[:] = saved[0]
        root.setLevel(saved[1])
        logging.disable(saved[2])


def headless(text: str) -> str:
    return re.sub(r"(?s)^\s*BEGIN header.*?END header[^\n]*\n\s*\n", "", text, count=1)


def contents(chk):
    """kind -> [(type, bytes, result)]"""
    lib = library(chk.seed, core.REPO, 0)
    out = {"listing": [], "input": [], "headless": [], "other": []}
    for typ, kinds in sorted(lib.items()):
        kind = "listing" if typ in LISTINGS else "input" if typ in INPUTS else "other"
        for data, res in kinds["good"]:
            if res[0] == "ok":
                out[kind].append((typ, data, res[1]))
            if typ in HEADED and res[0] == "ok" and headless(data.decode()) != data.decode():
                out["headless"].append((typ, headless(data.decode()).encode(), res[1]))
    for kind, have in out.items():
        if not have:
            raise core.Machinery(f"no {kind} contents")
    return out


def complaint(ear, got, want, heard, path, data, route):
    if ear.broken:
        return ear.broken
    if got[0] == "err":
        return f"{got[1]}: {got[2]}"
    if e := core.compare(want, got[1]):
        return f"the result differs: {e}"
    if ear.out.getvalue():
        return f"written to the output: {ear.out.getvalue()[:80]!r}"
    levels = {lv for lv, _ in ear.said}
    lines = data.decode(errors="replace").splitlines()
    for lv in heard:
        if lv not in levels:
            return f"nothing was said at level {lv}"
    for lv, text in ear.said:
        m = FROM.fullmatch(text)
        if m is None or path is None:
            continue
        if m[1] != str(path) and text.startswith("[") and f"[{path}" not in text:
            return f"a message names {m[1]!r}, not {str(path)!r}: {text[:100]!r}"
        if m[2] and not 0 < int(m[2]) <= len(lines) + 1:
            return f"a message is about line {m[2]} of {len(lines)}: {text[:100]!r}"
    if path is not None and heard:
        for lv in heard:
            if not any(v == lv and t.startswith(f"[{path}") for v, t in ear.said):
                return f"no message of level {lv} names the file {str(path)!r}"
    return None


def parses(chk, d):
    lib = contents(chk)
    res = chk.model(core.tlc("Diagnostics", consts={"Kinds": set(lib), "Names": set(NAMES), "Routes": {"path", "text", "handle", "stream"}},
                             invariants=["Quiet"], properties=["Same"], workers=2))
    g = Graph(res.out)
    chk.note("model_transitions_distinct", len(g.edges))
    start = next(k for k in g.adj if '"WARNING", [], "-"' in k)
    from castep_outputs import parse_single
    for _ in range(chk.pick(1, 25)):
        for _, walk in g.tour([start], chk.rng, maxlen=200):
            level = "WARNING"
            for i in walk:
                _, op, heard, _ = g.edges[i]
                if op[0] == "level":
                    level = op[1]
                    continue
                _, kind, name, route = op
                typ, data, want = chk.rng.choice(lib[kind])
                path = d / f"{chk.rng.choice(NAMES[name])}.{typ}"
                path.write_bytes(data)
                named = path
                fn = chk.rng.choice([functions()[typ], parse_single])
                if route != "stream" and chk.rng.random() < .3:
                    named = pathlib.Path(path.name)             # from its own directory
                with listening(level) as ear:
                    if route in ("path", "text"):
                        got = core.observe(fn, named if route == "path" else str(named))
                    elif route == "handle":
                        with open(named, "rb" if typ in BINARY else "r") as f:
                            got = core.observe(functions()[typ], f)
                    else:
                        named = None
                        got = core.observe(functions()[typ], io.BytesIO(data) if typ in BINARY else io.StringIO(data.decode()))
                path.unlink()
                chk.validated()
                if bad := complaint(ear, got, want, heard, named, data, route):
                    chk.violation(f"{typ} read at level {level} ({route}, {path.name!r}): {bad}", {"op": op, "level": level, "type": typ, "content": data.hex()})
                if chk.full:
                    return
    return lib


def levels(chk, lib):
    """Every content at every level."""
    for kind, have in lib.items():
        for typ, data, want in have:
            for level in ("DEBUG", "INFO", "ERROR", "CRITICAL"):
                with listening(level) as ear:
                    got = core.observe(functions()[typ], io.BytesIO(data) if typ in BINARY else io.StringIO(data.decode()))
                chk.validated()
                if bad := complaint(ear, got, want, (), None, data, "stream"):
                    chk.violation(f"{typ} read at level {level}: {bad}", {"level": level, "type": typ, "content": data.hex()})
                if chk.full:
                    return


SILENT = {"started", "scf", "linemin", "occupancies", "supercell", "mddata", "trial", "internal"}


def reported(chk, lib):
    """At INFO, something is said of every kind of section, and of every keyword and block of input files."""
    from castep_outputs import parse_castep_file
    for text_doc in castep.docs(chk, [k for k in castep.KINDS if k not in SILENT], size="one", length=1, runs=1, gaps=("blank",)):
        rows = json.loads(text_doc)["doc"]
        text = Document(chk.rng, T).render(rows)
        with listening("INFO") as ear:
            got = core.observe(parse_castep_file, io.StringIO(text))
        chk.validated()
        if ear.broken or got[0] == "ok" and not any(lv == "INFO" for lv, _ in ear.said):
            chk.violation(f"a section of a .castep file: {ear.broken or 'nothing was said at INFO'}", {"rows": rows, "text": text})
        if chk.full:
            return
    for typ, data, want in lib["input"]:
        with listening("INFO") as ear:
            core.observe(functions()[typ], io.StringIO(data.decode()))
        said = " | ".join(text.lower() for lv, text in ear.said if lv == "INFO")
        chk.validated()
        if ear.broken or (left := [k for part in (want if isinstance(want, list) else [want]) for k in part if str(k).lower() not in said]):
            chk.violation(f"a .{typ} file: {ear.broken or f'nothing was said of {left[0]}'}", {"content": data.decode()})
        if chk.full:
            return


def traces(chk, d):
    """What the .castep reader echoes of files the model of them makes."""
    docs = castep.docs(chk, castep.KINDS, size="few", length=12, runs=3, iterations=3, gaps=castep.GAPS, simulate=chk.pick(60, 600), limit=chk.pick(200, 3000))
    docs += castep.docs(chk, castep.KINDS, size="one", length=2, runs=1, gaps=("text",), limit=chk.pick(200, 3000))
    from castep_outputs import parse_castep_file
    recorded, texts = [], []
    for n, text_doc in enumerate(docs):
        doc = Document(chk.rng, T)
        text = doc.render(json.loads(text_doc)["doc"])
        path = d / f"{chk.rng.choice(NAMES['percent'] + NAMES['plain'])}{n}.castep"
        path.write_text(text)
        with listening("DEBUG") as ear:
            got = core.observe(parse_castep_file, path)
        path.unlink()
        if ear.broken:
            chk.violation(f"{path.name!r}: {ear.broken}", {"text": text})
            return
        if got[0] == "err":
            chk.bump("not_parsing")
            continue
        ids = {}
        lines = [ids.setdefault(line, len(ids) + 1) for line in text.splitlines()]
        log = []
        for lv, said in ear.said:
            if (m := FROM.fullmatch(said)) and m[2]:
                # a line comes with its end, and nothing else that is said does
                echo = lv == "DEBUG" and m[3].endswith("\n")
                log.append([int(m[2]), ids.get(m[3].rstrip("\n"), -1) if echo else 0])
        recorded.append({"file": lines, "outside": [ids[OUTSIDE]] if OUTSIDE in ids else [], "log": log})
        texts.append(text)
    step = 100
    for k in range(0, len(recorded), step):
        f = d / "traces.json"
        f.write_text(json.dumps(recorded[k: k + step]))
        res = chk.model(core.tlc("Echo", invariants=["InOrder", "Emit"], env={"TRACES": f}, workers=4))
        ok = {r["t"] for r in res.out if r["ok"]}
        for t in range(1, len(recorded[k: k + step]) + 1):
            chk.validated()
            if t in ok:
                continue
            at = max((r for r in res.out if r["t"] == t), key=lambda r: r["at"])
            rec, text = recorded[k + t - 1], texts[k + t - 1]
            nxt = rec["log"][at["said"]] if at["said"] < len(rec["log"]) else None
            lines = text.splitlines()
            chk.violation(f"the lines echoed at level DEBUG are not those of the file: after line {at['at']} comes "
                          f"{'line ' + str(at['at'] + 1) + ' (' + repr(lines[at['at']][:50]) + ')' if at['at'] < len(lines) else 'the end'}, "
                          f"said {'nothing more' if nxt is None else f'number {nxt[0]}' + (' of a section' if nxt[1] == 0 else '')}", {"text": text, "log": rec["log"]})
    chk.note("echoed_lines", sum(len(r["log"]) for r in recorded))
    if not any(r["log"] for r in recorded):
        chk.violation("no line of any .castep file is echoed at level DEBUG", {})


RANKS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
CALLS = {"parse_single": "x = parse_single(sys.argv[1], None, 'json'{}); get_dumpers('json')(x, sys.stdout)",
         "parse_all": "parse_all(None, 'json'{}, **{{sys.argv[2]: [sys.argv[1]]}})"}


def process(d, typ, path, level, how):
    """(exit, output, errors) of a parse in a process of its own, at a level asked for, or left to be WARNING."""
    if how == "tool":
        cmd = ["-m", "castep_outputs", *(["-L" if len(path.name) % 2 else "--log", level] if level else []), f"--{typ}", str(path)]
    else:
        cmd = ["-c", "import sys, logging; from castep_outputs.cli.castep_outputs_main import parse_all, parse_single; "
                     "from castep_outputs.utilities.dumpers import get_dumpers; "
                     + CALLS[how].format(f", loglevel=logging.{level}" if level else ""), str(path), typ]
    env = {**os.environ, "PYTHONPATH": str(core.REPO), "PYTHONDONTWRITEBYTECODE": "1"}
    r = subprocess.run([sys.executable, "-B", *cmd], capture_output=True, text=True, env=env, cwd=d, timeout=300, check=False)
    return r.returncode, r.stdout, r.stderr


def tool(chk, d, lib):
    """The command line tool and the calls behind it: the same output whatever the level, what is said on the error stream only."""
    jobs = []
    for kind, least in (("listing", 1), ("input", 1), ("headless", 2), ("other", -1)):
        for n, (typ, data, _) in enumerate(chk.rng.sample(lib[kind], chk.pick(1, min(4, len(lib[kind]))))):
            path = d / f"{chk.rng.choice(NAMES['percent'])}{kind}{n}.{typ}"
            path.write_bytes(data)
            jobs += [(typ, path, level, how, least) for level in [*RANKS, None] for how in ("tool", *CALLS)]
    whole = {}
    with ThreadPoolExecutor(6) as ex:
        for (typ, path, level, how, least), (rc, out, err) in zip(jobs, ex.map(lambda j: process(d, *j[:4]), jobs)):
            rank = RANKS.index(level or "WARNING")
            said = [RANKS.index(m) for m in re.findall(rf"(?m)^({'|'.join(RANKS)}): ", err)]
            bad = None
            if rc or "Traceback" in err or "Logging error" in err:
                bad = f"exit {rc}, {err[-200:]!r}"
            elif any(s < rank for s in said):
                bad = f"said at level {RANKS[min(said)]}"
            elif rank <= least and not said:
                bad = "nothing was said"
            elif out != whole.setdefault(path, out):
                bad = "the output differs from that at level DEBUG"
            elif not out.strip():
                bad = "there is no output"
            elif said and str(path) not in err:
                bad = f"the file is not named: {err[:100]!r}"
            chk.validated()
            if bad:
                chk.violation(f"{how} of {path.name} at level {level or '(not told)'}: {bad}", {"how": how, "type": typ, "level": level})
            if chk.full:
                return


def run(chk):
    with core.scratch() as d:
        d = pathlib.Path(d)
        os.chdir(d)
        lib = parses(chk, d)
        if lib and not chk.full:
            levels(chk, lib)
        if lib and not chk.full:
            reported(chk, lib)
        if not chk.full:
            traces(chk, d)
        if lib and not chk.full:
            tool(chk, d, lib)
        os.chdir("/")
    chk.assumptions.append("the level is that of the root logger, as parse_single leaves it to logging.basicConfig; messages about strings on their own name no file")
