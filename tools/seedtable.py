"""Rewrite the table of planted bugs at the end of DESIGN.md."""

import json
import pathlib

root = pathlib.Path(__file__).parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs'].replace('|', '/')} |")
design = root / "DESIGN.md"
text = design.read_text().split("### Seeded bugs")[0]
design.write_text(text + f"""### Seeded bugs

{len(rows)} changes planted in `seeded/`, each caught by the quick check of the property named (`tools/tryseed.sh ID...` runs the
check on the change in a scratch copy). Misses found while planting, and by mutating every line of the package, were closed by widening the
models (see the history); what remains undetected of the mutants is listed below.

| change | property | shows only with |
|--------|----------|-----------------|
""" + "\n".join(rows) + """

Mutants of the package which no check reports were each looked at; they change no observable behaviour (a regular expression's `\\s*` for
`\\s+` or an anchor implied by the text, blank-line handling where a blank cannot come, logging texts, the second of two tests which cannot
disagree), or concern what no property promises (private debug switches, the progress reports of the lazy reader).
""")
