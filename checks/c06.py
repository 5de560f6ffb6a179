"""C06: readers of a .castep file with different filters against spec/Castep.tla."""

from harness import castep


def run(chk):
    F, N = castep.FULL, frozenset()
    inv = {"invariants": ["NothingAsked", "Agree", "PresetsNested", "Emit"]}

    # every kind of section, asked for category by category, by everything but one category, and by the presets
    views = [F, N, *(frozenset({c}) for c in F), *(F - {c} for c in F)]
    docs = castep.docs(chk, castep.KINDS, size=chk.pick("few", "wide"), views=views, presets=True, gaps=("none",), **inv)
    chk.note("single sections", len(docs))
    castep.replay(chk, docs, what="one section", each=chk.pick(8, None))
    # skipping one section must not disturb the next
    docs = castep.docs(chk, castep.KINDS, size="one", length=2, views=views, gaps=("none",), **inv)
    chk.note("pairs", len(docs))
    castep.replay(chk, docs, what="two sections", each=1, reps=chk.pick(1, 4))
    # longer files read by sampled sets of categories
    for size, length, runs, iterations, n in (("few", 25, 2, 4, chk.pick(60, 1500)), ("wide", 40, 3, 4, chk.pick(30, 800))):
        for _ in range(chk.pick(1, 6)):
            views = [F, N, F - {"GEOM_OPT"}, F - {"MD"}, F - {"PSPOT"}]
            while len(views) < 12:
                views.append(frozenset(chk.rng.sample(castep.CATEGORIES, chk.rng.randint(2, 28))))
                views.append(views[-1] | set(chk.rng.sample(castep.CATEGORIES, 3)))
            docs = castep.docs(chk, castep.KINDS, size=size, length=length, runs=runs, iterations=iterations, gaps=castep.GAPS, simulate=n,
                               views=views, **inv)
            castep.replay(chk, docs, what=f"{length} sections")
