"""Sample contents of every supported type, good and broken, and what a fresh interpreter makes of them."""

from __future__ import annotations

import json
import os
import pathlib
import pickle
import random
import subprocess
import sys

HERE = pathlib.Path(__file__).resolve().parent
BINARY = {"cst_esp", "epme_bin"}


def samples() -> dict[str, list[bytes]]:
    raw = json.loads((HERE / "samples.json").read_text())
    return {t: [bytes.fromhex(x) if t in BINARY else x.encode() for x in v] for t, v in raw.items()}


def broken(rng, typ: str, good: list[bytes], others: list[bytes], n: int) -> list[bytes]:
    """Contents cut anywhere, garbled, or of another type."""
    out = [b""]
    for _ in range(n):
        c = rng.choice(good)
        how = rng.random()
        if how < .5:
            out.append(c[: rng.randrange(len(c))])
        elif how < .7:
            k = rng.randrange(len(c))
            out.append(c[:k] + b"\xff\xfe\x80" + c[k:])         # not text
        elif how < .9:
            lines = c.splitlines(keepends=True)
            del lines[rng.randrange(len(lines))]
            out.append(b"".join(lines))
        else:
            out.append(rng.choice(others)[:3000])
    return out


def baselines(items: list[tuple[str, bytes]], repo) -> list[tuple]:
    """Outcome of parsing each (type, content) in a process that parsed nothing before."""
    r = subprocess.run([sys.executable, "-B", str(HERE / "baseline.py"), str(repo)], input=pickle.dumps(items),
                       capture_output=True, timeout=800, check=False, env={**os.environ})
    if r.returncode:
        raise RuntimeError(f"baseline.py: {r.stderr.decode()[-800:]}")
    return pickle.loads(r.stdout)


def functions():
    """The per-type function of every supported type."""
    from castep_outputs.bin_parsers import PARSERS as BIN
    from castep_outputs.parsers import PARSERS
    return {**PARSERS, **BIN}


def library(seed, repo, n_bad: int, n_good: int = 4):
    """{type: {"good": [(content, outcome)], "bad": [(content, outcome)]}}."""
    rng = random.Random(f"contents:{seed}")
    good = samples()
    items = []
    for typ, texts in good.items():
        others = [x for t, v in good.items() if t != typ and (t in BINARY) == (typ in BINARY) for x in v]
        for c in texts[:n_good]:
            items.append((typ, "good", c))
        for c in broken(rng, typ, texts, others, n_bad):
            items.append((typ, "bad", c))
    res = baselines([(t, c) for t, _, c in items], repo)
    lib = {t: {"good": [], "bad": []} for t in good}
    for (typ, kind, c), out in zip(items, res):
        lib[typ][kind].append((c, out))
    return lib
