"""C05: neighbouring sections and successive runs of a .castep file against spec/Castep.tla."""

from harness import castep


def run(chk):
    inv = {"invariants": ["Emit"], "properties": ["Finished"]}
    # every kind of section right after every other
    docs = castep.docs(chk, castep.KINDS, size="one", length=2, runs=2, gaps=("none",) if chk.quick else castep.GAPS, **inv)
    chk.note("pairs", len(docs))
    castep.replay(chk, docs, what="two sections", reps=chk.pick(1, 2))
    # the same kind of section in successive runs, steps and iterations
    for size, length, runs, iterations in ((chk.pick("few", "wide"), 3, 2, 0), ("one", 3, 1, 2)):
        docs = castep.docs(chk, castep.KINDS, size=size, length=length, runs=runs, iterations=iterations, gaps=("none", "blank"), again=True,
                           limit=chk.pick(700, None), **inv)
        chk.note(f"repeated sections ({runs} runs, {iterations} steps)", len(docs))
        castep.replay(chk, docs, what="repeated sections", reps=chk.pick(1, 2))
    # longer files: many sections, several runs, unrelated text between
    for size, length, runs, iterations, n in (("few", 30, 3, 4, chk.pick(60, 1500)), ("wide", 60, 6, 6, chk.pick(40, 1000)),
                                              ("few", 6, 4, 0, chk.pick(150, 6000))):
        docs = castep.docs(chk, castep.KINDS, size=size, length=length, runs=runs, iterations=iterations, gaps=castep.GAPS, simulate=n, **inv)
        castep.replay(chk, docs, what=f"{length} sections")
