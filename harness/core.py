"""Shared machinery: the TLC runner, result comparison, and the bookkeeping of one check."""

from __future__ import annotations

import contextlib
import copy
import io
import json
import logging
import multiprocessing
import os
import pathlib
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("CASTEP_REPO", "/repo"))
SPEC = VERIF / "spec"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """Something in the checking machinery itself failed (exit 2, never a verdict)."""


class Hang(BaseException):
    """The code under test did not return in time."""


# --------------------------------------------------------------------------- real code

def load_repo():
    """Import castep_outputs from /repo's working tree."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(REPO))
    import castep_outputs  # noqa: PLC0415

    where = pathlib.Path(castep_outputs.__file__).resolve()
    if REPO.resolve() not in where.parents:
        raise Machinery(f"castep_outputs imported from {where}, not from {REPO}")
    logging.disable(logging.CRITICAL)
    return castep_outputs


@contextlib.contextmanager
def deadline(seconds: float):
    """Turn a call that does not return into a `Hang`; time it was kept waiting by others does not count at once."""
    began, waits = time.process_time(), [5]

    def handler(signum, frame):
        used = time.process_time() - began
        if used < seconds / 2 and waits[0]:
            waits[0] -= 1
            signal.setitimer(signal.ITIMER_REAL, seconds)
            return
        raise Hang(f"no result after {seconds} s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def limit_memory(gib: float = 6):
    """Bound this process (not its TLC children) so a runaway parse raises MemoryError."""
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (int(gib * 2**30), hard))


def _unlimit():
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


# --------------------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self):
        self.out: list = []
        self.states = 0
        self.distinct = 0
        self.violated: str | None = None
        self.text = ""
        self.coverage: dict[str, tuple[int, int]] = {}


def tlc(module: str, cfg: str | None = None, *, consts: dict | None = None, invariants=(),
        spec: str = "Spec", constraint: str | None = None, view: str | None = None,
        properties=(), postcondition: str | None = None, action_constraint: str | None = None,
        simulate: int | None = None, depth: int | None = None, workers: int | str = 1,
        env: dict | None = None, heap: str = "3g", timeout: float = 800,
        deadlock: bool = False, allow_violation: bool = False, coverage: bool = False,
        seed: int | None = None, on_line=None) -> TLCResult:
    """Run TLC on spec/<module>.tla and collect what it printed through `PrintT(ToJson(..))`.

    Every printed line starting with a double quote is one JSON document.
    """
    res = TLCResult()
    work = tempfile.mkdtemp(prefix="verif_tlc_")
    try:
        cfgtext = cfg
        if cfgtext is None:
            lines = [f"SPECIFICATION {spec}"]
            for k, v in (consts or {}).items():
                lines.append(f"CONSTANT {k} = {tla_value(v)}" if not str(v).startswith("<-")
                             else f"CONSTANT {k} {v}")
            lines += [f"INVARIANT {i}" for i in invariants]
            lines += [f"PROPERTY {p}" for p in properties]
            if constraint:
                lines.append(f"CONSTRAINT {constraint}")
            if action_constraint:
                lines.append(f"ACTION_CONSTRAINT {action_constraint}")
            if view:
                lines.append(f"VIEW {view}")
            if postcondition:
                lines.append(f"POSTCONDITION {postcondition}")
            lines.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
            cfgtext = "\n".join(lines) + "\n"
        (pathlib.Path(work) / "M.cfg").write_text(cfgtext)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
               f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={work}",
               "-cp", JARS, "tlc2.TLC", "-config", str(pathlib.Path(work) / "M.cfg"),
               "-metadir", str(pathlib.Path(work) / "meta"), "-noGenerateSpecTE",
               "-workers", str(workers)]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}", "-seed", str(SEED if seed is None else seed)]
            cmd += ["-depth", str(depth or 100)]
        cmd.append(str(SPEC / f"{module}.tla"))
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        text: list[str] = []
        proc = subprocess.Popen(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                text=True, preexec_fn=_unlimit)
        start = time.time()
        assert proc.stdout is not None
        timer_fired = False

        def kill(*_):
            nonlocal timer_fired
            timer_fired = True
            proc.kill()

        import threading  # noqa: PLC0415
        timer = threading.Timer(timeout, kill)
        timer.start()
        try:
            for line in proc.stdout:
                if line.startswith('"'):
                    if on_line is not None:
                        on_line(json.loads(line))
                    else:
                        res.out.append(decode_print(line))
                else:
                    text.append(line)
            rc = proc.wait()
        finally:
            timer.cancel()
            if proc.poll() is None:
                proc.kill()
                proc.wait()
        res.text = "".join(text)
        if timer_fired:
            raise Machinery(f"TLC {module} timed out after {time.time() - start:.0f} s")
        for line in text:
            if "states generated," in line and "distinct states found" in line:
                words = line.replace(",", "").split()
                res.states = int(words[0])
                res.distinct = int(words[words.index("distinct") - 1])
            elif line.startswith("The number of states generated:"):
                res.states = int(line.split(":")[1].replace(",", "").strip())
            elif "is violated" in line or "was violated" in line:
                res.violated = line.strip()
        if rc != 0 and not (allow_violation and res.violated):
            raise Machinery(f"TLC {module} exited {rc}:\n{res.text[-4000:]}")
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decode_print(line: str):
    """Decode a line printed by PrintT of a TLA+ string holding JSON."""
    try:
        return json.loads(json.loads(line))
    except json.JSONDecodeError as err:
        raise Machinery(f"cannot decode TLC output {line[:200]!r}: {err}") from err


def tla_value(v) -> str:
    """Python value → TLA+ expression usable in a .cfg file."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v, key=repr)) + "}"
    raise TypeError(v)


# --------------------------------------------------------------------------- comparison

def plain(v):
    """Forget the distinctions the properties do not make: mapping class, list or tuple."""
    if isinstance(v, dict):
        return {plain_key(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def plain_key(k):
    if isinstance(k, (list, tuple)):
        return tuple(plain_key(x) for x in k)
    return k


class Near(float):
    """A value computed from printed ones: rounding in the last digits is not the property's business."""


def diff(exp, got, path="") -> str | None:
    """First difference between two plain values, or None."""
    if isinstance(exp, Near):
        ok = isinstance(got, float) and abs(float(exp) - got) <= 1e-9 * max(1.0, abs(got))
        return None if ok else f"{path or '/'}: expected about {float(exp)!r}, got {short(got)}"
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return f"{path or '/'}: expected a mapping, got {short(got)}"
        for k in exp:
            if k not in got:
                return f"{path}/{k}: missing (keys: {short(list(got))})"
            if d := diff(exp[k], got[k], f"{path}/{k}"):
                return d
        for k in got:
            if k not in exp:
                return f"{path}/{k}: unexpected entry {short(got[k])}"
        return None
    if isinstance(exp, list):
        if not isinstance(got, list):
            return f"{path or '/'}: expected a list, got {short(got)}"
        for i, (a, b) in enumerate(zip(exp, got)):
            if d := diff(a, b, f"{path}[{i}]"):
                return d
        if len(exp) != len(got):
            return f"{path or '/'}: expected {len(exp)} entries, got {len(got)}: {short(got)}"
        return None
    if type(exp) is not type(got):
        if isinstance(exp, (int, float)) and isinstance(got, (int, float)) \
                and not isinstance(exp, bool) and not isinstance(got, bool):
            return f"{path or '/'}: expected {type(exp).__name__} {exp!r}, got {type(got).__name__} {got!r}"
        return f"{path or '/'}: expected {short(exp)}, got {short(got)}"
    if exp != got and not (exp != exp and got != got):
        return f"{path or '/'}: expected {short(exp)}, got {short(got)}"
    return None


def compare(exp, got, path="") -> str | None:
    return diff(plain(exp), plain(got), path)


def short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[: n - 3] + "..."


# --------------------------------------------------------------------------- one check

def _worker(check, items, work, pipe):
    error = None
    try:
        work(check, items)
    except BaseException:  # noqa: BLE001
        error = traceback.format_exc()
    pipe.send((error, json.loads(json.dumps(check.found, default=repr)), check.known_hits, check.samples, check.cov, check.notes))
    pipe.close()


class Check:
    """Bookkeeping of one check run: violations, known findings, evidence."""

    MAXV = 5

    def __init__(self, prop: str, level: str = "model_checking"):
        self.prop = prop
        self.level = level
        self.tier = TIER
        self.seed = SEED
        self.quick = TIER != "thorough"
        self.rng = random.Random(f"{SEED}:{prop}")
        self.start = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.samples: list = []
        self.assumptions: list[str] = []
        self.violations: list[tuple[str, str]] = []
        self.known_hits: dict[str, str] = {}
        self.notes: dict = {}
        findings = json.loads((VERIF / "known_findings.json").read_text())["findings"]
        self._known = [k for k in findings if k["property"] == prop]
        self._elsewhere = {k["key"] for k in findings if k["property"] != prop}
        self.full = False

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def model(self, res: TLCResult):
        if res.violated:
            raise Machinery(f"the specification itself violates: {res.violated}\n{res.text[-3000:]}")
        self.cov["states"] += res.distinct or res.states
        self.cov["transitions"] += res.states
        return res

    def validated(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(obj)

    def note(self, key, val):
        self.notes[key] = val

    def bump(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def violation(self, message: str, replay: dict, key: str | None = None):
        """Record a divergence. `key` identifies it for the known-findings file."""
        if key is not None:
            for k in self._known:
                if k["key"] == key:
                    self.known_hits[key] = k["what"]
                    return
        if len(self.violations) >= self.MAXV:
            self.full = True
            return
        if hasattr(self, "found"):          # one of several processes: see spread
            self.found.append((message, replay, key))
            self.violations.append((message, ""))
            self.full = len(self.violations) >= self.MAXV
            return
        d = VERIF / "replays"
        d.mkdir(exist_ok=True)
        n = len(self.violations)
        f = d / f"{self.prop}-{self.tier}-{n}.json"
        replay = dict(replay)
        replay.update(property=self.prop, message=message, seed=self.seed, tier=self.tier, key=key)
        f.write_text(json.dumps(replay, indent=1, default=repr))
        self.violations.append((message, str(f)))
        if len(self.violations) >= self.MAXV:
            self.full = True

    def elsewhere(self, key: str) -> bool:
        """Is this finding recorded under another property (and not under this one)?"""
        return key in self._elsewhere and not any(k["key"] == key for k in self._known)

    def spread(self, items: list, work, procs: int = 7):
        """Do `work(check, items)` in several processes, and collect what they found."""
        if len(items) < 40 or self.full:
            return work(self, items)
        ctx = multiprocessing.get_context("fork")
        running = []
        for n in range(procs):
            sub = copy.copy(self)
            sub.rng = random.Random(self.rng.random())
            sub.cov = dict.fromkeys(self.cov, 0)
            sub.samples, sub.violations, sub.known_hits, sub.notes, sub.found = [], [], {}, {}, []
            here, there = ctx.Pipe(duplex=False)
            proc = ctx.Process(target=_worker, args=(sub, items[n::procs], work, there))
            proc.start()
            there.close()
            running.append((proc, here))
        failed = None
        for proc, here in running:
            try:
                error, found, hits, samples, cov, notes = here.recv()
            except EOFError:
                error, found, hits, samples, cov, notes = "a replaying process ended early", [], {}, [], {}, {}
            proc.join()
            failed = failed or error
            for message, replay, key in found:
                self.violation(message, replay, key)
            self.known_hits.update(hits)
            for s in samples[:1]:
                self.sample(s)
            for k, v in cov.items():
                self.cov[k] += v
            for k, v in notes.items():
                if isinstance(v, bool) or not isinstance(v, (int, float)):
                    self.note(k, v)
                else:
                    self.bump(k, v)
        if failed and not self.violations:
            raise Machinery(failed)

    def finish(self) -> int:
        (VERIF / "evidence").mkdir(exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["(none)"]
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.start, 2), "violations": len(self.violations)}
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")
        for key, what in self.known_hits.items():
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        for msg, f in self.violations:
            print(f"{self.prop}: {msg}")
            print(f"VIOLATION property={self.prop} replay={f}")
        n = self.cov
        print(f"{self.prop} {self.tier}: {len(self.violations)} violation(s); {n['states']} states, "
              f"{n['transitions']} transitions, {n['traces_validated_against_impl']} behaviours replayed; "
              f"{ev['wall_s']} s")
        return 1 if self.violations else 0


def observe(fn, *args, seconds=20, **kw):
    """Call the real code: ("ok", value) or ("err", exception class name, text)."""
    sink = io.StringIO()
    try:
        with deadline(seconds), contextlib.redirect_stderr(sink):
            return ("ok", fn(*args, **kw))
    except Hang as err:
        return ("err", "Hang", str(err))
    except (KeyboardInterrupt, Machinery):
        raise
    except BaseException as err:  # noqa: BLE001  the code under test may raise anything
        tb = traceback.extract_tb(err.__traceback__)
        last = tb[-1] if tb else None
        return ("err", type(err).__name__, f"{err} @ {last.filename.split('/')[-1]}:{last.name}" if last else str(err))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif_run_")
    try:
        yield pathlib.Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
