"""C12: every output format keeps every value; documents predicted by spec/Values.tla."""

import copy
import io
import json
import math
import pprint
from collections import defaultdict

from harness import core
from harness.formats import docs_from

TRICKY = ["", " ", "yes", "No", "null", "~", "1.0", "1e5", "0x10", "on", "2020-01-01", "12:30:45", "a: b", "- x", "# no",
          "it's \"quoted\"", "back\\slash", "tab\there", "two\nlines", "trailing ", " leading", "Å µ é 中", "%block", "@at",
          "[x]", "{y}", "&a", "*b", "!t", "|", ">", "?", "true", "None", "inf", ".5", "=", "<<", "a\n\nb\n", "\u2028", "x" * 200,
          "word " * 40, "\x7f", "\x85", "😀", "'", '"', "''", "---", "...", "key:", "\n", "\r\n x"]
FLOATS = [0.0, -0.0, 1.0, -1.5, 1e-5, 1e300, 5e-324, 1e16, 123456789.123456789, 0.1, 1 / 3, 1e22, -2.5e-10, 3e8]
INTS = [0, 1, -1, 2**40, 10**20, -7, 100]


def leaf(rng, kind):
    if kind == "str":
        return rng.choice(TRICKY) if rng.random() < .8 else "".join(rng.choice("abcXYZ 0-_:,#") for _ in range(rng.randint(1, 12)))
    if kind == "int":
        return rng.choice(INTS)
    if kind == "float":
        return rng.choice(FLOATS) if rng.random() < .5 else rng.uniform(-1, 1) * 10 ** rng.randint(-12, 12)
    if kind == "bool":
        return rng.random() < .5
    if kind == "complex":
        return complex(rng.choice(FLOATS), rng.choice(FLOATS))
    return None


def key(k):
    if k["k"] == "tup":
        return tuple(key(x) for x in k["v"])
    return {"none": None, "int": k["i"], "str": k["s"]}[k["k"]]


class Tree:
    """One concrete value, and the documents expected of it, sharing the leaves."""

    def __init__(self, rng):
        self.rng = rng
        self.leaves = {}

    def build(self, v):
        if v["t"] == "leaf":
            if v["n"] not in self.leaves:
                self.leaves[v["n"]] = leaf(self.rng, v["kind"])
            x = self.leaves[v["n"]]
            return x.real if v["kind"] == "re" else x.imag if v["kind"] == "im" else x
        if v["t"] == "seq":
            items = [self.build(x) for x in v["items"]]
            return tuple(items) if v["kind"] == "tuple" else items
        out = defaultdict(list) if v["kind"] == "defaultdict" else {}
        for k, x in v["items"]:
            out[key(k)] = self.build(x)
        return out


def exact(exp, got, path=""):
    """Like core.compare, but telling 0.0 from -0.0."""
    if bad := core.compare(exp, got, path):
        return bad
    signs_e, signs_g = [], []

    def walk(v, out):
        if isinstance(v, dict):
            for x in v.values():
                walk(x, out)
        elif isinstance(v, (list, tuple)):
            for x in v:
                walk(x, out)
        elif isinstance(v, float):
            out.append(math.copysign(1, v))

    a, b = core.plain(exp), core.plain(got)
    walk(a, signs_e)
    walk(b, signs_g)
    return None if sorted(signs_e) == sorted(signs_g) else f"{path}/: a sign is lost"


def read_back(fmt, text):
    import yaml
    from ruamel.yaml import YAML

    if fmt == "json":
        def refuse(name):
            raise ValueError(f"{name} is not JSON")
        def pairs(items):
            names = [k for k, _ in items]
            if len(set(names)) != len(names):
                raise ValueError(f"key repeated: {names}")
            return dict(items)
        return json.loads(text, parse_constant=refuse, object_pairs_hook=pairs)
    if fmt == "ruamel":
        return YAML(typ="unsafe").load(text)
    return yaml.load(text, Loader=yaml.UnsafeLoader)


def run(chk):
    import warnings

    from castep_outputs.cli.castep_outputs_main import parse_single
    from castep_outputs.utilities.dumpers import get_dumpers

    warnings.simplefilter("ignore")

    def one(doc, fmt, testing=False):
        tree = Tree(chk.rng)
        value = tree.build(doc["val"])
        keep = copy.deepcopy(value)
        out = io.StringIO()

        def go():
            data = parse_single(io.StringIO(), lambda _: value, fmt, testing=testing)
            get_dumpers(fmt)(data, out)
            return data

        got = core.observe(go)
        replay = {"value": repr(keep), "format": fmt, "testing": testing, "text": out.getvalue()[:4000]}
        chk.validated()
        if got[0] == "err":
            chk.violation(f"{fmt}: writing {core.short(keep)} raised {got[1]}: {got[2]}", replay)
            return
        if repr(value) != repr(keep):
            chk.violation(f"{fmt}: the given value is altered: {core.short(value)}", replay)
            return
        text = out.getvalue()
        if fmt in ("print", "pprint"):
            exp = tree.build(doc["flat"]) if testing else value
            exp = (str if fmt == "print" else pprint.pformat)(exp) + "\n"
            if text != exp:
                chk.violation(f"{fmt}: {core.short(text)} is not the value {core.short(exp)}", replay)
            return
        back = core.observe(read_back, fmt, text)
        if back[0] == "err":
            chk.violation(f"{fmt}: not a valid document ({back[1]}: {back[2][:300]})", replay)
            return
        exp = tree.build(doc["flat" if testing else "json" if fmt == "json" else "yaml"])
        if testing and fmt == "json":       # names are text in JSON
            exp = [{str(k): v for k, v in run.items()} for run in exp] if isinstance(exp, list) else {str(k): v for k, v in exp.items()}
        if bad := exact(exp, back[1]):
            chk.violation(f"{fmt}{', testing' if testing else ''}: {bad}", replay)

    def go(docs, reps=1):
        for n, doc in enumerate(docs):
            doc = json.loads(doc)
            for _ in range(reps):
                for fmt in ("json", "yaml", "ruamel", "pyyaml", "print", "pprint"):
                    if chk.full:
                        return
                    if fmt == "ruamel" and chk.quick and n % 4:
                        continue
                    one(doc, fmt)
                if "flat" in doc and not chk.full:
                    one(doc, chk.rng.choice(["json", "json", "yaml", "pyyaml", "ruamel", "print", "pprint"]), testing=True)
                    chk.bump("flattened")
            if n == len(docs) // 2:
                chk.sample({"value": doc["val"], "json": doc["json"]})
        chk.bump("values", len(docs))

    inv = {"invariants": ["KeysStayApart", "NothingLost", "NamesApart", "Emit"]}
    docs = docs_from(chk, "Values", {"MaxOps": 4, "MaxStack": 4, "Rich": False}, workers=4, **inv)
    go(chk.rng.sample(docs, min(len(docs), chk.pick(2500, 30000))))
    docs = docs_from(chk, "Values", {"MaxOps": 3, "MaxStack": 3, "Rich": True}, workers=4, **inv)
    go(docs if len(docs) < chk.pick(2500, 50000) else chk.rng.sample(docs, chk.pick(2500, 50000)))
    go(docs_from(chk, "Values", {"MaxOps": 40, "MaxStack": 6, "Rich": True}, spec="SpecRandom", simulate=chk.pick(300, 4000),
                 depth=400, **inv))
    chk.assumptions += ["keys of one mapping are of the kinds parsers use, which stay apart when joined", "no NaN or infinity", "testing mode: a result's outermost keys are not None, and several results are mappings"]
