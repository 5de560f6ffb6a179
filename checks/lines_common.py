"""C02/C03: line cursors and block extraction against spec/Lines.tla."""

import io
import logging

from harness import core
from harness.walk import Graph, key

OTHER = ["plain text", "   1   2.5   3", "x", "ünï¢ødé → text", "a " * 300, "# hash: = [1]", "\tTabbed\tline"]
BLANK = ["", "", "   ", "\t"]


def line_for(rng, cls, i):
    body = {"s": f"BEGIN thing {i}", "e": f"{rng.choice(['', '  '])}END thing {i}",
            "b": f"BEGIN {i} END both", "o": f"{rng.choice(OTHER)} {i}", "w": rng.choice(BLANK)}[cls]
    return body + "\n"


def given(**kw):
    """Arguments worth passing: the defaults (first end, end of file an error) are left to the code."""
    return {k: v for k, v in kw.items() if v != {"n_end": 1, "eof_possible": False}[k]}


class Source:
    """A real cursor over the text the model chose."""

    def __init__(self, rng, d, kind, text, route, n):
        from castep_outputs.utilities.filewrapper import Block, FileWrapper
        self.lines = [line_for(rng, c, i) for i, c in enumerate(text, 1)]
        self.base = 0
        self.check_no = True
        self.name = None
        self.close = None
        if kind == "file":
            if self.lines and rng.random() < 0.3 and self.lines[-1].strip():
                self.lines[-1] = self.lines[-1].rstrip("\n")
            joined = "".join(self.lines)
            if route == "path":
                f = d / f"src{n}.txt"
                f.write_text(joined, encoding="utf-8")
                self.close = f.open(encoding="utf-8")
                self.cur = FileWrapper(self.close)
                self.name = str(f)
            elif route == "offset":     # a handle already part-way through
                pre = "skip me\nand µe\n"
                h = io.StringIO(pre + joined)
                h.readline(), h.readline()
                self.cur = FileWrapper(h)
            else:
                self.cur = FileWrapper(io.StringIO(joined))
        elif route == "nested":
            pre = [f"before {i}\n" for i in range(rng.randint(0, 3))]
            f = d / f"blk{n}.txt"
            f.write_text("".join([*pre, "OPEN\n", *self.lines, "SHUT\n", "after\n"]), encoding="utf-8")
            self.close = f.open(encoding="utf-8")
            w = FileWrapper(self.close)
            for _ in pre:
                next(w)
            self.cur = Block.from_re(next(w), w, "^OPEN", "^SHUT")
            self.cur.remove_bounds(1, 1)
            self.base = len(pre) + 1
            self.name = str(f)
        else:
            self.cur = Block.from_iterable(list(self.lines))
            self.check_no = False
        self.last = None

    def done(self):
        if self.close is not None:
            self.close.close()

    def do(self, op):
        from castep_outputs.utilities.filewrapper import Block
        from castep_outputs.utilities.utility import log_factory
        name = op[0]
        if name == "next":
            self.last = None
            self.last = next(self.cur)
            return self.last
        if name == "rewind":
            return self.cur.rewind()
        if name == "lineno":
            return self.cur.lineno - self.base
        if name == "log":
            return self._log(log_factory(self.cur))
        if name == "whole":
            c = self.cur
            return [c.aslist(), [c[i] for i in range(len(c))], list(c[:]), len(c)]
        if name == "extract":
            blk = Block.from_re(self.last, self.cur, "BEGIN", "END", **given(n_end=op[1], eof_possible=op[2]))
            if op[3] or op[4]:
                blk.remove_bounds(op[3], op[4])
            return self._block(blk)
        if name == "get_lines":
            return self._block(Block.get_lines(self.cur, op[1], **given(eof_possible=op[2])))
        raise core.Machinery(f"unknown op {op}")

    def _block(self, blk):
        truth, size = bool(blk), len(blk)
        lines, nos = [], []
        for line in blk:
            lines.append(line)
            nos.append(blk.lineno - self.base)
        return [lines, nos if self.check_no else None, truth, size]

    def _log(self, logger):
        got = []
        h = logging.Handler()
        h.emit = lambda r: got.append(r.getMessage())
        root = logging.getLogger()
        root.addHandler(h)
        logging.disable(logging.NOTSET)
        try:
            logger("hello %s", "you", level="warning")
        finally:
            logging.disable(logging.CRITICAL)
            root.removeHandler(h)
        return got


def verdict(src, x, got):
    if x[0] in ("Stop", "ValueError", "OSError"):
        want = {"Stop": "StopIteration"}.get(x[0], x[0])
        if got[0] == "ok":
            return f"expected {want}, got {core.short(got[1])}"
        return None if got[1] == want else f"expected {want}, got {got[1]}: {got[2]}"
    if got[0] == "err":
        return f"raised {got[1]}: {got[2]}"
    val = got[1]
    if x[0] == "line":
        exp = src.lines[x[1] - 1]
        return None if val == exp else f"expected line {x[1]} {exp!r}, got {val!r}"
    if x[0] == "int":
        if not src.check_no:
            return None
        if isinstance(val, list):       # a diagnostic
            no = f":{x[1] + src.base}]"
            ok = len(val) == 1 and no in val[0] and "hello you" in val[0] and (src.name or "") in val[0]
            return None if ok else f"expected one diagnostic naming {src.name} and line {x[1] + src.base}, got {val}"
        return None if val == x[1] else f"expected line number {x[1]}, got {val}"
    if x[0] == "lines":
        exp = [src.lines[i - 1] for i in x[1]]
        return core.compare([exp, exp, exp, len(exp)], val)
    if x[0] == "block":
        exp = [src.lines[i - 1] for i in x[1]]
        return core.compare([exp, list(x[1]) if src.check_no else None, x[2], len(exp)], val)
    return None


def drive(chk, d, kind, routes, consts, per_text, walk_len):
    res = chk.model(core.tlc("Lines", consts={"Kind": kind, **consts}, invariants=["TypeOK"],
                             properties=["TextFixed", "StepsBackOne"], workers=4))
    g = Graph(res.out)
    chk.bump("model_transitions_distinct", len(g.edges))
    starts = sorted({k for k in g.adj if ', 0, false, 0, false]' in k})
    n = 0
    for start in starts:
        walks = [w for _, w in g.tour([start], chk.rng, maxlen=walk_len)]
        walks += [g.random_walk(start, chk.rng, walk_len) for _ in range(per_text)]
        text = __import__("json").loads(start)[0]
        for walk in walks:
            route = chk.rng.choice(routes)
            n += 1
            src = core.observe(Source, chk.rng, d, kind, text, route, n % 50)
            if src[0] == "err":
                chk.violation(f"cannot wrap a text: {src[1]} {src[2]}", {"text": text, "route": route})
                return
            src = src[1]
            try:
                for k, i in enumerate(walk):
                    _, op, x, _ = g.edges[i]
                    if d_ := verdict(src, x, core.observe(src.do, op)):
                        chk.violation(f"{kind} ({route}) {text}, step {k + 1} {op}: {d_}",
                                      {"text": src.lines, "kind": kind, "route": route,
                                       "ops": [g.edges[j][1] for j in walk[: k + 1]]})
                        break
            finally:
                src.done()
            chk.validated()
            chk.bump("steps", len(walk))
            if chk.full:
                return
    if starts and walk:
        chk.sample({"kind": kind, "text": text, "ops": [g.edges[i][1] for i in walk[:15]],
                    "expected": [g.edges[i][2] for i in walk[:15]]})
