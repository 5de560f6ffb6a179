"""Replaying documents enumerated by a model into the real parsers."""

from __future__ import annotations

import io
import json

from harness import core
from harness.doc import Document


def docs_from(chk, module, consts, invariants=(), properties=(), simulate=None, depth=100, limit=None, spec="Spec",
              workers=6, heap="3g", timeout=600):
    """Complete documents printed by a format model, deduplicated, in a stable order."""
    seen = set()
    if module in ("Tables", "Tensors", "Spectra", "Trajectory"):
        consts = {"Least": 1, **consts}
    chk.model(core.tlc(module, consts=consts, invariants=list(invariants), properties=list(properties),
                             workers=1 if simulate else workers, simulate=simulate, depth=depth, spec=spec,
                             heap=heap, timeout=timeout, on_line=seen.add))
    out = sorted(seen)
    if not out:
        raise core.Machinery(f"{module} produced no documents")
    if limit is not None and len(out) > limit:
        out = chk.rng.sample(out, limit)
        chk.note("sampled_documents", True)
    return out


def load(docs):
    return [json.loads(d) for d in docs]


def replay(chk, docs, templates, parse, *, reps=1, binary=False, pools=None, route=None, what="file",
           carry=True, norm=None, post=None, allow_unused=None, spread=False):
    """Render each document and compare what the real parser returns with what the model expects."""
    if spread:
        return chk.spread(docs, lambda sub, some: replay(sub, some, templates, parse, reps=reps, binary=binary, pools=pools, route=route, what=what,
                                                         carry=carry, norm=norm, post=post, allow_unused=allow_unused))
    for n, d in enumerate(docs):
        if isinstance(d, str):
            d = json.loads(d)
        for rep in range(reps):
            if chk.full:
                return
            doc = Document(chk.rng, templates, pools)
            text = doc.render(d["doc"])
            if binary and isinstance(text, str):
                text = text.encode()
            src = io.BytesIO(text) if binary else io.StringIO(text)
            got = core.observe(parse, src)
            bad = key = None
            if d.get("err"):
                if got[0] == "ok":
                    bad = f"{d['err']}: accepted, returned {core.short(got[1])}"
                elif got[1] in ("Hang", "RecursionError", "MemoryError", "SystemExit", "KeyboardInterrupt"):
                    bad = f"{d['err']}: {got[1]} {got[2]}"
            else:
                exp = doc.resolve(d["exp"])
                if post:
                    exp = post(exp)
                if carry:
                    left = [u for u in doc.unused() if not (allow_unused and allow_unused(u))]
                    if left:
                        raise core.Machinery(f"the model loses columns {left[:5]} of {d['doc']}")
                if got[0] == "err":
                    bad = f"parsing raised {got[1]}: {got[2]}"
                else:
                    val = core.plain(got[1])
                    if norm:
                        val = norm(val)
                    bad = core.compare(exp, val)
                    key = None
                    for name, alt in d.get("dev", []) if bad else []:
                        alt = doc.resolve(alt)
                        if not core.compare(post(alt) if post else alt, val):
                            key = name
                            break
            chk.validated()
            if bad and key and chk.elsewhere(key):
                chk.bump("cases_with_findings_of_other_properties")
            elif bad:
                chk.violation(f"{what}: {bad}", {"rows": d["doc"], "text": text if not binary else text.hex()[:6000]},
                              key=key)
                break
        if n == len(docs) // 2:
            chk.sample({"what": what, "rows": d["doc"][:12], "of": len(d["doc"])})
    chk.bump("documents", len(docs))
