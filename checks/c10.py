"""C10: what the command line selects, against spec/Cli.tla."""

import io
import json
import os
import pathlib

from harness import cli, core
from harness.contents import functions, samples
from harness.formats import docs_from
from harness.session import opened

SEEDS = [("Si", "SiC"), ("Si2", "Si"), ("run-1", "run_1"), ("a/Si", "b/Si"), ("Si", "sub/Si"), ("./Si", "O2"), ("Si.2x2", "Fe"),
         ("[x]", "x"), ("a b", "ab"), ("sub/../up", "q*"), ("md", "castep"), ("cell", "err"), ("no.such.dir/u-v", "v.0"), ("{abs}/Si", "Ge"),
         ("Si?", "Sii"), ("SI", "si"), ("-".join("xy"), "x"), ("param.out", "bands")]
UNKNOWN = ["txt", "check", "bak", "cst", "mdx", "castep~", "den_fm", "phonons", "CASTEP", "0001"]


class Case:
    """One directory and command line, with names drawn for the symbols."""

    def __init__(self, rng, doc, types, lib, root):
        self.rng, self.lib = rng, lib
        self.root = root
        a, b = rng.choice(SEEDS)
        self.seed = {"s1": a.format(abs=root), "s2": b}
        if rng.random() < .5:
            self.seed = {"s1": self.seed["s2"], "s2": self.seed["s1"]}
        t = rng.sample(types, 2)
        self.type = {"a": t[0], "b": t[1], "err": "err"}
        if t[0] == "err" or t[1] == "err":
            raise core.Machinery("err drawn twice")
        self.unknown = rng.choice(UNKNOWN)
        nums = rng.sample(["0001", "0002", "0010", "0123", "9999", "1"], 2)
        self.ext = {**self.type, "n1": f"{nums[0]}.err", "n2": f"{nums[1]}.err", "unk": self.unknown}
        self.doc = doc
        self.value = {}

    def name(self, f):
        seed, ext = f
        if ext == "long":
            return f"{self.seed[seed]}{self.tail}.{self.type['a']}"
        if ext.startswith("d-"):
            return f"{self.seed[seed]}.{self.type[ext[2:]]}"
        return f"{self.seed[seed]}.{self.ext[ext]}"

    def make(self):
        self.tail = self.rng.choice(["x", "-out", "_2", "1"])
        if any(s == self.seed["s1"] + self.tail or s == self.seed["s2"] + self.tail for s in self.seed.values()):
            self.tail += "zz"
        for s in self.seed.values():
            (self.root / s).parent.mkdir(parents=True, exist_ok=True)
            if ".." in s:
                (self.root / "sub").mkdir(exist_ok=True)
        for f in self.doc["files"]:
            p = self.root / self.name(f)
            if f[1].startswith("d-"):
                p.mkdir()
                continue
            want = {x[0] for x in self.doc["exp"] if x[1] == f}
            typ = self.type[want.pop()] if want else self.rng.choice(list(self.lib))
            data, self.value[tuple(f)] = self.rng.choice(self.lib[typ])
            p.write_bytes(data)

    def argv(self):
        r, d = self.rng, self.doc
        groups = []
        # included by switches, or by the program which has the command line read
        self.asked = [self.type[t] for t in d["inc"] if "all" not in d["inc"] and r.random() < .25]
        for t in d["inc"]:
            if self.type.get(t) in self.asked:
                continue
            groups.append([r.choice(["-A", "--inc-all"]) if t == "all" else f"--inc-{self.type[t]}"])
        if r.random() < .15 and groups:
            groups.append(groups[0])
        r.shuffle(groups)
        # files given for a type: one option with several, or several options would replace each other
        byt = {}
        for t, f in d["explicit"]:
            byt.setdefault(t, []).append(str(pathlib.Path(self.name(f))))
        stars = [[f"--{self.type[t]}", *names] for t, names in byt.items()]
        r.shuffle(stars)
        words = [self.seed[w[1]] if w[0] == "seed" else self.name(w[1]) for w in d["words"]]
        if stars and words:
            groups.append([r.choice(["-L", "--log"]), "WARNING"])     # ends the list of files before the words
            tail = groups.pop()
            r.shuffle(groups)
            out = [x for g in stars + groups for x in g] + tail
        else:
            both = stars + groups
            r.shuffle(both)
            out = [x for g in both for x in g]
        if words and words[0].startswith("-"):
            raise core.Machinery("option-like word")
        return out + words


def run(chk):
    lib = {}
    for typ, texts in samples().items():
        fn = functions()[typ]
        lib[typ] = []
        for c in texts:
            if len(c) > 20000 and typ != "castep":
                continue
            if typ == "castep" and lib[typ]:
                continue
            got = core.observe(fn, io.BytesIO(c) if typ in ("cst_esp", "epme_bin") else io.StringIO(c.decode()))
            if got[0] == "ok":
                lib[typ].append((c, got[1]))
        if not lib[typ]:
            raise core.Machinery(f"no sample of {typ} parses: {got}")
    types = sorted(set(lib) - {"err"})

    def one(doc):
        with core.scratch() as d:
            d = pathlib.Path(os.path.realpath(d))
            os.chdir(d)
            case = Case(chk.rng, doc, types, lib, d)
            case.make()
            argv = case.argv()
            fmt = chk.rng.choice(["json", "json", "json", "yaml", "pyyaml"])
            if fmt != "json" or chk.rng.random() < .3:
                argv = [chk.rng.choice(["-f", "--out-format"]), fmt, *argv]
            with opened() as seen:
                got = cli.main(argv, asked=case.asked)
            paths = {os.path.realpath(f.name) for f in seen if isinstance(f.name, (str, os.PathLike))}
            os.chdir("/")
            exp = {os.path.normpath(case.name(f)): case.value[tuple(f)] for _, f in doc["exp"]}
            replay = {"argv": argv, "asked": case.asked, "files": sorted(case.name(f) for f in doc["files"]), "selected": sorted(exp)}
            chk.validated()
            if got[0] == "err":
                chk.violation(f"castep_outputs {' '.join(argv)}: raised {got[1]}: {got[2]}", replay)
                return
            back = core.observe(cli.read, fmt, got[1])
            if back[0] == "err":
                chk.violation(f"castep_outputs {' '.join(argv)}: output cannot be read: {back[1]} {back[2]}", replay)
                return
            doc_ = back[1]
            if len(exp) == 1:
                want = cli.expected(fmt, next(iter(exp.values())))
            elif isinstance(doc_, dict):
                doc_ = {os.path.normpath(k): v for k, v in doc_.items()}
                want = {k: cli.expected(fmt, v) for k, v in exp.items()}
                if set(want) != set(doc_):
                    chk.violation(f"castep_outputs {' '.join(argv)}: parsed {sorted(doc_)}, selected are {sorted(want)}", replay)
                    return
            else:
                want = exp
            if e := core.compare(want, doc_):
                chk.violation(f"castep_outputs {' '.join(argv)} ({len(exp)} selected): {e}", replay)
                return
            inside = {p for p in paths if p.startswith(str(d) + "/")}
            wanted = {os.path.realpath(d / n) for n in exp}
            if inside - wanted:
                chk.violation(f"castep_outputs {' '.join(argv)}: reads {sorted(inside - wanted)}, which are not selected", replay)

    def go(docs, n):
        docs = docs if len(docs) <= n else chk.rng.sample(docs, n)
        for k, doc in enumerate(docs):
            one(json.loads(doc))
            if chk.full:
                return
            if k == len(docs) // 2:
                chk.sample(json.loads(doc))

    inv = {"invariants": ["Exist", "Excluded", "AllFound", "Emit"], "properties": ["Monotone"]}
    small = docs_from(chk, "Cli", {"Types": {"a", "err"}, "Seeds": {"s1"}, "MaxExplicit": 1, "MaxWords": 1}, workers=4, **inv)
    go(small, chk.pick(900, 20000))
    two = docs_from(chk, "Cli", {"Types": {"a", "b", "err"}, "Seeds": {"s1"}, "MaxExplicit": 0, "MaxWords": 1}, workers=4, **inv)
    go(two, chk.pick(600, 20000))
    big = docs_from(chk, "Cli", {"Types": {"a", "b", "err"}, "Seeds": {"s1", "s2"}, "MaxExplicit": 2, "MaxWords": 3}, spec="SpecRandom",
                    simulate=chk.pick(1500, 20000), depth=20, **inv)
    go(big, chk.pick(1500, 20000))
    chk.assumptions += ["options come before seednames (the words are a remainder)", "a file is given for one type only and not under two spellings of its path",
                        "a dotted seedname is not another seedname followed by a dot", "arguments do not start with a dash"]
