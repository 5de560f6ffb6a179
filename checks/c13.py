"""C13: predicted output files against the decision table spec/Generated.tla."""

import copy
import json
import os
import pathlib
import subprocess
import sys

from harness import core
from harness.formats import docs_from

INV = ["AlwaysCastep", "NoneSilences", "OwnOnly", "TheoryUnique", "Emit"]
OTFG = "2|1.8|11|13|15|30:31:32(qc=6){}"
HERE = pathlib.Path(__file__).resolve().parent.parent


# Options which act together, and how many of them are set at once (quick, thorough).
GROUPS = {"spectral": (3, 4), "md": (4, 6), "write": (3, 5), "fields": (3, 4), "pots": (3, 4), "elastic": (4, 5), "phonon": (4, 6)}


def case(rng, s):
    how = rng.randrange(4)
    if how == 0:
        return s.lower()
    if how == 1:
        return s.capitalize()
    if how == 2:
        return "".join(rng.choice((c.lower(), c.upper())) for c in s)
    return s


def value(rng, v):
    if v in ("T", "F"):
        return v == "T"
    if v.startswith("#"):
        return int(v[1:])
    if v == "(nonsense)":
        return case(rng, "Gibberish")
    return case(rng, v)


def pot(v, spec):
    return {"otf": {"string": "x", "print": False}, "print": {"string": "x[]", "print": True},
            "lib": "C19", "usp": f"{spec}_00.usp"}[v]


def dictionaries(doc, rng):
    """The parsed-dictionary form of a set of options."""
    par, devel, cell = {}, {}, {}
    items = list(dict(doc["cfg"] or {}).items())
    rng.shuffle(items)
    for o, v in items:
        if o.startswith("d:"):
            where, _, name = o[2:].rpartition("/")
            val = "born.DAT" if v == "born.DAT" else value(rng, v)
            (devel.setdefault(where, {}) if where else devel)[name] = val
        elif o.startswith("pot_"):
            cell.setdefault("species_pot", {})[o[4:]] = pot(v, o[4:])
        elif o == "xc_definition":
            names = v.split()
            rng.shuffle(names)
            par[o] = {"xc": {case(rng, x): 1 / len(names) for x in names}, "params": {}}
        else:
            par[o] = value(rng, v)
    if doc["task"] != "(unset)":
        par["task"] = case(rng, doc["task"] if doc["task"] != "(nonsense)" else "Gibberish")
    if "_pp" in devel:   # the word is only told apart from the block when there is one
        devel.setdefault("pp", {})["buck"] = True
    if devel:
        par["devel_code"] = devel
    if doc["cell"] == "SiFeAbs":
        u = rng.choice(["Ang", "bohr"])
        cell["positions_abs"] = {("Si", 1): {"pos": [0., 0., 0.], "units": u}, ("Fe", 1): {"pos": [1., 1.5, .25], "units": u}}
    elif doc["cell"] == "SiFe":
        cell["positions_frac"] = {("Si", 1): {"pos": [0., 0., 0.]}, ("Si", 2): {"pos": [.5, .5, .5]},
                                  ("Fe", 1): {"pos": [.25, .25, .25]}}
    return par, cell


def render(doc, rng):
    """The same options as the text of a .param and a .cell file."""
    head, nested, bare, blocks, pots = [], {}, [], [], []
    logical = {"T": ("true", "TRUE", "T", "True"), "F": ("false", "FALSE", "F", "False")}
    def text(v):
        if v in logical:
            return rng.choice(logical[v])
        return str(value(rng, v))
    if doc["task"] != "(unset)":
        head.append(("task", case(rng, doc["task"] if doc["task"] != "(nonsense)" else "Gibberish")))
    for o, v in dict(doc["cfg"] or {}).items():
        if o.startswith("d:"):
            where, _, name = o[2:].rpartition("/")
            item = f"{case(rng, name)}={v if v == 'born.DAT' else text(v)}"
            (nested.setdefault(where, []) if where else bare).append(item)
        elif o.startswith("pot_"):
            pots.append(f"{o[4:]} " + {"otf": OTFG, "print": OTFG.replace("{}", "[]"), "lib": "C19",
                                       "usp": f"{o[4:]}_00.usp"}[v].replace("{}", ""))
        elif o == "xc_definition":
            names = v.split()
            rng.shuffle(names)
            blocks.append(["%BLOCK XC_DEFINITION"] + [f"{case(rng, x)} {1 / len(names)}" for x in names]
                          + ["%ENDBLOCK XC_DEFINITION"])
        else:
            head.append((o, text(v)))
    rng.shuffle(head)
    lines = [f"{case(rng, k)} {rng.choice((':', '='))} {v}" for k, v in head]
    if any(x.lower().startswith("_pp=") for x in bare):
        bare = [x[1:] if x.lower().startswith("_pp=") else x for x in bare]
        nested.setdefault("pp", []).append("buck=true")
    if nested or bare:
        groups = [bare, *([f"{case(rng, k)}:", *v, f":END{k.upper()}"] for k, v in nested.items())]
        blocks.append(["%BLOCK devel_code", *(x for g in groups for x in g), "%ENDBLOCK devel_code"])
    for b in blocks:
        lines += ["", *b]
    cell = None
    if doc["cell"] != "none":
        where = "positions_frac" if doc["cell"] == "SiFe" else rng.choice(["positions_abs", "POSITIONS_ABS"])
        cell = [f"%block {where}", "Si 0 0 0", "Si 0.5 0.5 0.5", "Fe 0.25 0.25 0.25", f"%endblock {where}"]
        if where != "positions_frac" and rng.random() < .5:
            cell.insert(1, "bohr")
        if pots:
            cell += ["", "%BLOCK species_pot", *pots, "%ENDBLOCK species_pot"]
        cell = "\n".join(cell) + "\n"
    return "\n".join(lines) + "\n", cell


SEEDS = ("seedname", "NaCl", "a-b_1", "Si.1", "MgO.8x8.relaxed", "run.castep")


def expected(doc, seed):
    return sorted(f[1:] if f.startswith("=") else seed + f for f in doc["files"])


def judge(chk, doc, got, seed, how, replay):
    chk.validated()
    if doc["refused"]:
        if got[0] == "ok":
            chk.violation(f"{how}: impossible or unknowable settings accepted, predicted {core.short(got[1])}", replay)
        elif got[1] in ("Hang", "RecursionError", "MemoryError"):
            chk.violation(f"{how}: {got[1]} {got[2]}", replay)
    elif got[0] == "err":
        chk.violation(f"{how}: raised {got[1]}: {got[2]}", replay)
    else:
        exp = expected(doc, seed)
        if sorted(got[1]) != exp:
            have, want = list(got[1]), list(exp)
            chk.violation(f"{how}: missing {sorted(set(want) - set(have))}, "
                          f"unexpected {sorted(set(have) - set(want)) or sorted(x for x in set(have) if have.count(x) > 1)} "
                          f"for {doc['task']} {doc['cfg']}", replay)


def by_dict(chk, docs, gen):
    for n, doc in enumerate(docs):
        if chk.full:
            return
        par, cell = dictionaries(doc, chk.rng)
        keep = copy.deepcopy((par, cell))
        seed = chk.rng.choice(SEEDS)
        src = chk.rng.choice((seed, pathlib.Path(seed), f"some/dir/{seed}"))
        # An empty directory has no .param to fall back on: both are always given here.
        got = core.observe(gen, src, param_data=par, cell_data=cell)
        replay = {"doc": doc, "param": repr(keep[0]), "cell": repr(keep[1])}
        judge(chk, doc, got, seed, "dictionaries", replay)
        if (par, cell) != keep:
            chk.violation("the given dictionaries are altered", replay)
        elif n % 10 == 0:
            again = core.observe(gen, src, param_data=par, cell_data=cell)
            if again[:2] != got[:2]:
                chk.violation(f"second prediction differs: {core.short(again)}", replay)
        if n == 777:
            chk.sample({"task": doc["task"], "cfg": doc["cfg"], "files": doc["files"]})


def by_file(chk, docs, gen, d):
    for n, doc in enumerate(docs):
        if chk.full:
            return
        par, cell = render(doc, chk.rng)
        how = chk.rng.choice(("seed", "names", "mixed"))
        seed = chk.rng.choice(SEEDS)
        for old in d.iterdir():
            old.unlink()
        if how == "seed":
            src, kw = d / seed, {}
            (d / f"{seed}.param").write_text(par)
            if cell:
                (d / f"{seed}.cell").write_text(cell)
            if chk.rng.random() < .5:
                src = str(src)
        else:
            src = d / seed
            kw = {"param_file": d / "other.par"}
            kw["param_file"].write_text(par)
            (d / f"{seed}.param").write_text("task : magres\nwrite_none : true\n")   # must not be used
            if cell:
                kw["cell_file"] = d / "other.cel"
                kw["cell_file"].write_text(cell)
            if how == "mixed":
                kw["cell_data"] = dictionaries(doc, chk.rng)[1]
        got = core.observe(gen, src, **kw)
        judge(chk, doc, got, seed, f"files ({how})", {"doc": doc, "param": par, "cell": cell})


def repeatable(chk, docs):
    """The same settings under several hash seeds, in separate interpreters."""
    with core.scratch() as d:
        jobs = []
        for doc in docs:
            par, cell = dictionaries(doc, chk.rng)
            jobs.append(repr((par, cell)))
        (d / "jobs.json").write_text(json.dumps(jobs))
        outs = []
        for hs in ("0", "1", "2", "3", "4", "77"):
            env = {**os.environ, "PYTHONHASHSEED": hs}
            r = subprocess.run([sys.executable, "-B", str(HERE / "harness" / "predict.py"), str(core.REPO), str(d / "jobs.json")],
                               env=env, capture_output=True, text=True, timeout=300, check=False)
            if r.returncode:
                raise core.Machinery(f"predict.py: {r.stderr[-800:]}")
            outs.append(json.loads(r.stdout))
        for i, doc in enumerate(docs):
            for o in outs:
                got = ("ok", o[i]) if isinstance(o[i], list) else ("err", o[i], "")
                judge(chk, doc, got, "seedname", "another interpreter (hash seed)", {"doc": doc, "job": jobs[i]})


def run(chk):
    from castep_outputs.tools.get_generated_files import get_generated_files as gen

    def load(**kw):
        return [json.loads(x) for x in docs_from(chk, "Generated", invariants=INV,
                                               timeout=800, **kw)]

    docs = load(consts={"MaxOpts": 1, "AllNames": True, "Group": "all"})
    by_dict(chk, docs, gen)
    with core.scratch() as d:
        by_file(chk, docs if not chk.quick else chk.rng.sample(docs, 1500), gen, d)
        big = load(consts={"MaxOpts": 14, "AllNames": True, "Group": "all"}, spec="SpecRandom", simulate=chk.pick(2500, 20000), depth=15)
        by_dict(chk, big, gen)
        by_file(chk, chk.rng.sample(big, chk.pick(2000, 20000)), gen, d)
    for group, (quick, thorough) in GROUPS.items():
        part = load(consts={"MaxOpts": chk.pick(quick, thorough), "AllNames": False, "Group": group}, workers=4)
        chk.note(f"group_{group}", len(part))
        by_dict(chk, part if len(part) < 10**6 else chk.rng.sample(part, 10**6), gen)
    repeatable(chk, chk.rng.sample([x for x in docs + big if "xc_definition" in (x["cfg"] or {})], chk.pick(300, 2000)))
    if not chk.quick:
        by_dict(chk, load(consts={"MaxOpts": 2, "AllNames": False, "Group": "all"}), gen)
    chk.note("option_sets", len(docs) + len(big))
    chk.assumptions += ["developer words are written KEY=VALUE", "seednames do not end like an input file",
                        "all pseudopotentials count as ultrasoft, as the code assumes"]
