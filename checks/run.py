"""Entry point of every check: run.py ID."""
import importlib
import pathlib
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))

from harness import core  # noqa: E402


def main():
    prop = sys.argv[1]
    try:
        core.load_repo()
    except core.Machinery as err:
        print(f"machinery: {err}")
        return 2
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
        chk = core.Check(prop)
        core.limit_memory()
        mod.run(chk)
        return chk.finish()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print("machinery failure, no verdict")
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
