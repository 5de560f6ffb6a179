"""Running the command line tool in this process, and reading back what it wrote."""

from __future__ import annotations

import ast
import io
import contextlib
import json
import re
import sys

from harness import core
from harness.contents import functions

FORMATS = ["json", "yaml", "ruamel", "pyyaml", "pprint", "print"]


def json_doc(v):
    """The documented JSON form of a parsed value."""
    if isinstance(v, dict):
        return {json_key(k): json_doc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [json_doc(x) for x in v]
    if isinstance(v, complex):
        return {"real": v.real, "imag": v.imag}
    return v


def json_key(k):
    if isinstance(k, (tuple, list)):
        return "_".join(str(y) for x in k for y in (x if isinstance(x, tuple) else (x,)))
    return {None: "null", True: "true", False: "false"}.get(k, str(k)) if not isinstance(k, str) else k


def expected(fmt, v):
    return json_doc(v) if fmt == "json" else core.plain(v)


def flat(v):
    """The testing mode's form (Flat in spec/Values.tla) of a parsed value."""
    v = json_doc(v)
    if isinstance(v, list):
        return [flat(x) for x in v]
    out = {}

    def walk(x, name):
        if isinstance(x, dict):
            for k, y in x.items():
                walk(y, f"{name}_{k}")
        elif isinstance(x, list):
            for i, y in enumerate(x):
                walk(y, f"{name}_{i}")
        else:
            out[name] = x

    for k, y in v.items():
        walk(y, k)
    return out


def read(fmt, text):
    """The document in a text, or an exception."""
    import yaml
    from ruamel.yaml import YAML
    if fmt == "json":
        return json.loads(text)
    if fmt == "ruamel":
        return YAML(typ="unsafe").load(text)
    if fmt in ("yaml", "pyyaml"):
        return yaml.load(text, Loader=yaml.UnsafeLoader)
    text = re.sub(r"defaultdict\(\s*<[^>]*>", "defaultdict(None", text.strip())
    return ReprReader().visit(ast.parse(text, mode="eval").body)


class ReprReader(ast.NodeVisitor):
    """Python literals, and the mappings with defaults parsers use."""

    def generic_visit(self, node):
        return ast.literal_eval(node)

    def visit_Dict(self, node):
        return {self.visit(k): self.visit(v) for k, v in zip(node.keys, node.values)}

    def visit_List(self, node):
        return [self.visit(x) for x in node.elts]

    def visit_Tuple(self, node):
        return tuple(self.visit(x) for x in node.elts)

    def visit_Call(self, node):
        if node.func.id in ("defaultdict", "OrderedDict", "Counter", "dict"):
            return self.visit(node.args[-1]) if node.args and isinstance(node.args[-1], ast.Dict) else {}
        return ast.literal_eval(node)

    def visit_Name(self, node):
        return float(node.id) if node.id in ("nan", "inf") else ast.literal_eval(node)


def main(argv, seconds=30, asked=()):
    """("ok", stdout) or ("err", class, text); asked: types included by the calling program."""
    from castep_outputs.cli.args import parse_args
    from castep_outputs.cli.castep_outputs_main import main as tool, run

    if asked:
        def tool():
            run(parse_args(asked))
    out = io.StringIO()
    saved, sys.argv = sys.argv, ["castep_outputs", *argv]
    try:
        with contextlib.redirect_stdout(out):
            got = core.observe(tool, seconds=seconds)
    finally:
        sys.argv = saved
    return ("ok", out.getvalue()) if got[0] == "ok" else (*got, out.getvalue())


def direct(typ, path):
    return functions()[typ](path)
