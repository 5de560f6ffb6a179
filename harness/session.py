"""The calls of spec/Session.tla against the real library."""

from __future__ import annotations

import builtins
import contextlib
import io
import os
import pathlib

from harness import core
from harness.contents import BINARY, functions

JUNK = [b"something of the caller's own\n", b"\n", b"END header 1.0 2.0\n", b" BEGIN header\n", b"0 1 2 <-- E\n", b"%block x\n"]


class Fault(OSError):
    """The medium failed while it was being read."""


class FaultyRaw(io.RawIOBase):
    """Bytes which can be read up to a point only."""

    def __init__(self, data: bytes, limit: int):
        super().__init__()
        self.data, self.limit, self.pos, self.armed = data, limit, 0, True

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = max(0, off + {0: 0, 1: self.pos, 2: len(self.data)}[whence])
        return self.pos

    def readinto(self, buf):
        end = min(self.pos + min(len(buf), 512), self.limit if self.armed else len(self.data), len(self.data))
        if self.armed and self.pos >= self.limit:
            raise Fault("read failed")
        n = max(0, end - self.pos)
        buf[:n] = self.data[self.pos:end]
        self.pos += n
        return n


def stream(typ, raw):
    buf = io.BufferedReader(raw, buffer_size=512)
    return buf if typ in BINARY else io.TextIOWrapper(buf)


@contextlib.contextmanager
def opened(faults: dict | None = None):
    """Every file object made by open() while this lasts; paths in `faults` fail after so many bytes."""
    seen = []
    real = io.open
    faults = faults if faults is not None else {}

    def recording(file, mode="r", *args, **kw):
        path = os.path.realpath(file) if isinstance(file, (str, os.PathLike)) else None
        if path in faults and "w" not in mode and "a" not in mode:
            typ, limit = faults[path]
            f = stream(typ, FaultyRaw(faults_data(path, real), limit))
        else:
            f = real(file, mode, *args, **kw)
        seen.append(f)
        return f

    saved = io.open, builtins.open
    io.open = builtins.open = recording
    try:
        yield seen
    finally:
        io.open, builtins.open = saved


def faults_data(path, real):
    with real(path, "rb") as f:
        return f.read()


def descriptors() -> int:
    return len(os.listdir("/proc/self/fd"))


def spoil(v, depth=0):
    """Alter a result in place as far as it can be altered."""
    if isinstance(v, dict):
        for x in list(v.values()):
            spoil(x, depth + 1)
        v.clear()
    elif isinstance(v, list):
        for x in v:
            spoil(x, depth + 1)
        v.append("spoilt")


class Impl:
    """One walk: the caller's handles, directories and results."""

    def __init__(self, rng, root: pathlib.Path, lib: dict, types: dict):
        self.rng, self.root, self.lib, self.types = rng, root, lib, types
        self.slots: dict = {}
        self.fns = functions()
        self.kept: list = []
        self.last = None
        self.n = 0
        for d in ("here", "there", "d.cell", "here/in.md"):
            (root / d).mkdir(exist_ok=True)
        os.chdir(root / "here")
        self.faults: dict = {}

    def content(self, c):
        """(type, bytes, outcome, where reading fails)."""
        typ = self.types[c[0]]
        if c[1] == "fault":
            data, _ = self.rng.choice(self.lib[typ]["good"])
            return typ, data, ("err", "Fault", ""), self.rng.randrange(len(data))
        data, out = self.rng.choice(self.lib[typ][c[1]])
        return typ, data, out, None

    def do(self, op):
        """Perform the operation; (outcome, expected) for a parse, None otherwise. Raises AssertionError with the complaint."""
        return getattr(self, "do_" + op[0])(*op[1:])

    def do_chdir(self):
        here = pathlib.Path.cwd().name == "here"
        os.chdir(self.root / ("there" if here else "here"))

    def do_spoil(self):
        if self.last is not None:
            self.kept = [k for k in self.kept if k[1] is not self.last]
            spoil(self.last)
            self.last = None

    def do_refuse(self, kind):
        from castep_outputs import parse_single
        r = self.rng
        typ = r.choice(sorted(self.types.values()))
        data = r.choice(self.lib[typ]["good"])[0]
        h = None
        if kind == "handle":        # nothing tells its type
            h = io.BytesIO(data) if typ in BINARY else io.StringIO(data.decode(errors="replace"))
            args = [h]
        else:
            d = self.root / r.choice(["here", "there"])
            p = d / (f"{typ}." + r.choice(["foo", "txt", "castep~", "json"]) if kind == "extension" else f"y.{typ}")
            p.write_bytes(data)
            args = [r.choice([str, pathlib.Path])(p)] + ([r.choice(["foo", "", "castep_file", "." + typ])] if kind == "name" else [])
        with opened() as seen:
            got = core.observe(parse_single, *args)
        if h is None:
            p.unlink()
        what = {"handle": "a handle of no told type", "name": f"an unsupported type {args[1:]}", "extension": "an unsupported extension"}[kind]
        assert got[0] == "err", f"{what}: parsed as {core.short(got[1])}"
        assert got[1] == "ValueError", f"{what}: {got[1]} ({got[2]})"
        assert not seen and (h is None or not h.closed and h.tell() == 0), f"{what}: was read before being refused"

    def do_open(self, i, c, medium, start):
        typ, data, out, limit = self.content(c)
        pre = b"".join(self.rng.choice(JUNK) for _ in range(self.rng.randint(1, 4))) if start else b""
        if not data.isascii() and typ not in BINARY:
            pre = b""           # decoding is buffered: the caller's own reading could fail
        whole = pre + data
        if limit is not None:
            raw = FaultyRaw(whole, len(pre) + limit)
            h = stream(typ, raw)
        elif medium == "file":
            self.n += 1
            p = self.root / f"handle{self.n % 7}.{self.rng.choice([typ, 'txt', 'castep', 'md'])}"
            p.write_bytes(whole)
            h = open(p, "rb") if typ in BINARY else open(p)
        elif typ in BINARY:
            h = io.BytesIO(whole)
        else:
            try:
                h = io.StringIO(whole.decode())
            except UnicodeDecodeError:
                h = io.TextIOWrapper(io.BytesIO(whole))
        if limit is None:
            pos = 0
            while pos < len(pre):
                pos += len(h.read(1) if typ in BINARY else h.readline())
            at = h.tell()
        else:
            at = len(pre)
            h.seek(at)
        self.slots[i] = {"h": h, "at": at, "typ": typ, "out": out, "data": data, "raw": raw if limit is not None else None}

    def how(self, typ, via):
        from castep_outputs import parse_single
        fn = self.fns[typ]
        if via == "function":
            return fn
        if via == "extension":
            return parse_single
        return lambda f: parse_single(f, typ if via == "name" else fn)

    def do_handle(self, i, via):
        s = self.slots[i]
        with opened() as seen:
            got = core.observe(self.how(s["typ"], via), s["h"])
        return self.after(got, s["out"], seen, s["typ"])

    def do_seek(self, i):
        s = self.slots[i]
        assert not s["h"].closed, "the caller's handle was closed"
        s["h"].seek(s["at"])

    def do_close(self, i):
        s = self.slots.pop(i)
        h = s["h"]
        assert not h.closed, "the caller's handle was closed"
        h.seek(s["at"])
        if s["raw"] is not None:
            s["raw"].armed = False
        try:
            rest = h.read()
        except UnicodeDecodeError:
            rest = None
        if rest is not None and (rest if isinstance(rest, bytes) else rest.encode()) != s["data"]:
            raise AssertionError("the caller's handle no longer reads its own content")
        h.close()

    def do_path(self, c, via, form):
        typ, data, out, limit = self.content(c)
        self.n += 1
        stem = f"f{self.n % 5}"
        if form == "relative":
            p = pathlib.Path.cwd() / f"{stem}.{typ}"
            arg = self.rng.choice([p.name, "./" + p.name, f"../{p.parent.name}/{p.name}"])
        elif form == "dotted":
            p = self.root / self.rng.choice(["d.cell", "here/in.md"]) / f"{stem}.1-out.castep.v2.{typ}"
            arg = self.rng.choice([str, pathlib.Path])(p)
        else:
            p = self.root / self.rng.choice(["here", "there"]) / f"{stem}.{typ}"
            arg = str(p) if form == "str" else p
        if via in ("name", "callable") and self.rng.random() < .5:
            q = p.with_name(p.name.rsplit(".", 1)[0] + self.rng.choice(["", ".txt", ".castep", ".phonon", ".cst_esp"]))
            arg = type(arg)(str(arg)[: -len(p.name)] + q.name) if not isinstance(arg, pathlib.Path) else arg.with_name(q.name)
            p = q
        p.write_bytes(data)
        if limit is not None:
            self.faults[os.path.realpath(p)] = (typ, limit)
        with opened(self.faults) as seen:
            got = core.observe(self.how(typ, via), arg)
        if limit is None and got[0] == out[0] == "ok" and not core.compare(out[1], got[1]) and self.rng.random() < .3:
            # the same, unchanged, file once more, the caller having altered the first result
            if self.rng.random() < .5:
                spoil(got[1])
            with opened() as seen2:
                got = core.observe(self.how(typ, self.rng.choice(["function", "name", "callable"])), arg)
            seen = seen + seen2
        self.faults.clear()
        p.unlink()
        assert seen or got[0] == "err", "the file was not opened"
        return self.after(got, out, seen, typ)

    def after(self, got, out, seen, typ):
        if got[0] == "ok":
            self.last = got[1]
            self.kept.append((typ, got[1], out))
        return {"got": got, "out": out, "seen": seen, "typ": typ}

    def kept_changed(self):
        """A result handed out earlier which later calls altered."""
        for typ, val, out in self.kept[-40:]:
            if out[0] == "ok" and (e := core.compare(out[1], val)):
                return f"an earlier {typ} result was altered by a later call: {e}"
        return None

    def end(self):
        for s in self.slots.values():
            s["h"].close()
        os.chdir("/")


def outcome(r):
    """Complaint about a parse's own result, or None."""
    exp, got = r["out"], r["got"]
    if exp[0] == "err":
        if got[0] == "ok":
            return f"{r['typ']}: {exp[1]} in a fresh interpreter, a result here: {core.short(got[1])}"
        # a nonsensical record length makes files and memory streams fail in different ways
        same = got[1] == exp[1] or exp[1] == "Fault" or r["typ"] in BINARY
        return None if same else f"{r['typ']}: {exp[1]} in a fresh interpreter, {got[1]} here ({got[2]})"
    if got[0] == "err":
        return f"{r['typ']}: parses in a fresh interpreter, {got[1]} here ({got[2]})"
    if e := core.compare(exp[1], got[1]):
        return f"{r['typ']}: differs from a fresh interpreter's result: {e}"
    return None
