"""Child of contents.py: parse each content in a fork of a process which has parsed nothing."""
import io
import os
import pathlib
import pickle
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
os.environ["CASTEP_REPO"] = sys.argv[1]

from harness import core  # noqa: E402

core.load_repo()
from harness.contents import BINARY, functions  # noqa: E402

items = pickle.load(sys.stdin.buffer)
fns = functions()
out = []
for typ, data in items:
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        got = core.observe(lambda: core.plain(fns[typ](io.BytesIO(data) if typ in BINARY else io.TextIOWrapper(io.BytesIO(data)))), seconds=8)
        with os.fdopen(w, "wb") as f:
            f.write(pickle.dumps(got))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    os.waitpid(pid, 0)
    out.append(pickle.loads(raw))
sys.stdout.buffer.write(pickle.dumps(out))
