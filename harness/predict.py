"""Run predictions in a fresh interpreter: predict.py REPO JOBS.json."""
import json
import logging
import os
import pathlib
import sys

repo, jobs = sys.argv[1:]
sys.path.insert(0, repo)
from castep_outputs.tools.get_generated_files import get_generated_files  # noqa: E402

logging.disable(logging.CRITICAL)
os.chdir(pathlib.Path(jobs).parent)
out = []
for job in json.loads(pathlib.Path(jobs).read_text()):
    par, cell = eval(job)  # noqa: S307  our own repr
    try:
        out.append(get_generated_files("seedname", param_data=par, cell_data=cell))
    except Exception as err:  # noqa: BLE001
        out.append(type(err).__name__)
print(json.dumps(out))
