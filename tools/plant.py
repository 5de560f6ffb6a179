"""Plant a bug: python3 tools/plant.py NAME < spec.json, where spec is
{"property", "needs", "what_it_breaks", "edits": [[file, old, new]...], "demo": python text}.

Makes a scratch copy of /repo, applies the edits, writes seeded/NAME/, and confirms that the stable
tests still pass, that the demonstration tells the two trees apart, and what the property's check says.
"""
import json
import os
import pathlib
import shutil
import subprocess
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, timeout=timeout,
                          capture_output=True, text=True)


def main(name, spec):
    d = ROOT / "seeded" / name
    work = pathlib.Path(f"/tmp/plant_{name}")
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(REPO, work, symlinks=True)
    try:
        for f, old, new in spec.get("edits", []):
            p = work / f
            t = p.read_text()
            if t.count(old) != 1:
                print(f"{name}: edit matches {t.count(old)} times in {f}: {old!r}")
                return 1
            p.write_text(t.replace(old, new))
        d.mkdir(parents=True, exist_ok=True)
        if spec.get("edits"):
            (d / "patch.diff").write_text(sh("git diff", work).stdout)
        else:
            r = sh(f"git apply {d}/patch.diff", work)
            if r.returncode:
                print(f"{name}: patch does not apply: {r.stderr}")
                return 1
        if "demo" in spec:
            (d / "demo.py").write_text(spec["demo"])
            (d / "demo.sh").write_text('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            (d / "demo.sh").chmod(0o755)
        if "property" in spec:
            (d / "meta.json").write_text(json.dumps(
                {k: spec[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
        prop = json.loads((d / "meta.json").read_text())["property"]
        ok = True
        r = sh(f"bash {d}/demo.sh", REPO)
        if r.returncode:
            print(f"{name}: demo FAILS unpatched: {r.stdout[-400:]}{r.stderr[-800:]}")
            ok = False
        r = sh(f"bash {d}/demo.sh", work)
        if not r.returncode:
            print(f"{name}: demo passes with the patch")
            ok = False
        else:
            print(f"{name}: demo: {(r.stderr.strip().splitlines() or ['?'])[-1][:150]}")
        r = sh("/opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider --doctest-modules test castep_outputs 2>&1 | tail -5", work)
        if "failed" in r.stdout or "error" in r.stdout.lower():
            print(f"{name}: TESTS FAIL: {r.stdout[-500:]}")
            ok = False
        if not ok:
            shutil.rmtree(d)
            return 1
        if (ROOT / "checks" / f"{prop.lower()}.py").exists():
            r = sh(f"./check {prop} 2>&1", ROOT, {"CASTEP_REPO": str(work)})
            lines = r.stdout.strip().splitlines()
            first = next((x for x in lines if x.startswith(prop + ":")), lines[-1] if lines else "")
            print(f"{name}: check {prop} exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED'}: {first[:200]}")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) == 2 and not sys.stdin.isatty():
        text = sys.stdin.read()
        spec = json.loads(text) if text.strip() else {}
        sys.exit(main(sys.argv[1], spec))
