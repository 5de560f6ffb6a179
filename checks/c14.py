"""C14: .md/.geom/.ts content against spec/Trajectory.tla."""

from harness import core
from harness.formats import docs_from, replay


def header_md(v, h):
    return {"blank": " BEGIN header\n  \n END header\n  \n",
            "one": " BEGIN header\n  some comment 1 2 3\n END header\n  \n",
            "two": "\n BEGIN header\n  line 1.0 <-- E\n  line 2\n END header\n\n",
            "tight": " BEGIN header\n END header\n"}[h]


def header_ts(v, h):
    return {"search": " TSTYPE LST/QST\n", "confirm": " TSTYPE TSConfirmation\n"}[h]


def ion(v, sp, ind, tag):
    return f" {v.name(sp):<8}{ind:6d}    {v.fs(3, W, '   ')}  <-- {tag}\n"


W = "23.16E3"
MD = {
    "header": header_md,
    "time": lambda v: f"{' ' * 20}{v.f(1, W)}\n",
    "tag": lambda v, tag, n: f"{' ' * 20}{v.fs(n, W, '    '):<84}  <-- {tag}\n",
    "ion": ion,
    "blank": lambda v: "\n",
}
TS = dict(MD, header=header_ts, ts_start=lambda v, ty: f" {ty}    {v.n(1, 120)}      {v.f(1, '.8E3', 0, 1)}\n")


def run(chk):
    from castep_outputs.parsers.md_geom_file_parser import parse_geom_file, parse_md_file
    from castep_outputs.parsers.ts_file_parser import parse_ts_file

    inv = {"invariants": ["TypeOK", "Emit"], "properties": ["InOrder"]}
    docs = docs_from(chk, "Trajectory", {"Format": "md", "MaxFrames": 1, "Rich": True, "Free": 0}, **inv)
    replay(chk, docs, MD, parse_md_file, what=".md", pools=POOLS)
    docs = docs_from(chk, "Trajectory", {"Format": "md", "MaxFrames": chk.pick(2, 3), "Rich": False, "Free": 0}, **inv)
    replay(chk, docs, MD, parse_geom_file, what=".geom", pools=POOLS)
    docs = docs_from(chk, "Trajectory", {"Format": "md", "MaxFrames": 6, "Rich": True, "Free": 0}, **inv,
                     simulate=chk.pick(150, 4000), depth=400)
    replay(chk, docs, MD, parse_md_file, what=".md", pools=POOLS)
    docs = docs_from(chk, "Trajectory", {"Format": "md", "MaxFrames": 50, "Least": 13, "Rich": True, "Free": 0}, **inv,
                     simulate=chk.pick(40, 400), depth=3000)
    replay(chk, docs, MD, parse_geom_file, what=".geom", pools=POOLS)
    docs = docs_from(chk, "Trajectory", {"Format": "ts", "MaxFrames": 40, "Least": 13, "Rich": True, "Free": 0}, **inv,
                     simulate=chk.pick(40, 400), depth=3000)
    replay(chk, docs, TS, parse_ts_file, what=".ts", pools=POOLS)
    docs = docs_from(chk, "Trajectory", {"Format": "ts", "MaxFrames": 3, "Rich": False, "Free": 0}, **inv)
    replay(chk, docs, TS, parse_ts_file, what=".ts", pools=POOLS)
    docs = docs_from(chk, "Trajectory", {"Format": "ts", "MaxFrames": 2, "Rich": True, "Free": 0}, **inv)
    replay(chk, docs, TS, parse_ts_file, what=".ts", pools=POOLS)
    docs = docs_from(chk, "Trajectory", {"Format": "ts", "MaxFrames": 6, "Rich": True, "Free": 0}, **inv,
                     simulate=chk.pick(150, 4000), depth=300)
    replay(chk, docs, TS, parse_ts_file, what=".ts", pools=POOLS)
    for fmt, rows, parse, what in (("md", MD, parse_md_file, ".md"), ("ts", TS, parse_ts_file, ".ts")):
        docs = docs_from(chk, "Trajectory", {"Format": fmt, "MaxFrames": 1, "Rich": False, "Free": chk.pick(3, 5) if fmt == "md" else 6}, **inv)
        chk.note(f"{fmt}_any_order_documents", len(docs))
        replay(chk, docs, rows, parse, what=what, pools=POOLS)
        docs = docs_from(chk, "Trajectory", {"Format": fmt, "MaxFrames": 3, "Rich": False, "Free": 12}, **inv,
                         simulate=chk.pick(150, 4000), depth=400)
        replay(chk, docs, rows, parse, what=what, pools=POOLS)


POOLS = {"sp": ["H", "He", "C", "O", "Si", "Fe", "U", "Ag", "P", "S", "V", "F", "Pr"]}
