"""C22: MD steps and geometry iterations of a .castep file against spec/Castep.tla."""

from harness import castep

CORE = ["scf", "energies", "forces", "stress", "positions", "cell", "memory", "mddata", "enthalpy", "finalconfig"]


def run(chk):
    F = castep.FULL
    inv = {"invariants": ["Agree", "Emit"], "properties": ["Finished", "Apart", "InOrder"]}
    views = (F, F - {"MD"}, F - {"GEOM_OPT"}, frozenset({"MD", "GEOM_OPT", "MD_SUMMARY"}), frozenset({"MD", "SCF"}), frozenset({"GEOM_OPT", "POSITION", "FORCE"}))

    # any kind of section before, inside and after one step
    docs = castep.docs(chk, castep.KINDS, size=chk.pick("few", "wide"), length=1, iterations=1, views=views, gaps=("none",), **inv)
    castep.replay(chk, docs, what="one section", each=1)
    docs = castep.docs(chk, castep.KINDS, size="one", length=2, iterations=1, gaps=("none",), limit=chk.pick(3000, 80000), **inv)
    castep.replay(chk, docs, what="two sections")
    # the usual ones in every arrangement over two steps
    docs = castep.docs(chk, CORE, size="one", length=2, iterations=2, views=views, gaps=("none",), limit=chk.pick(3000, None), **inv)
    chk.note("arrangements", len(docs))
    castep.replay(chk, docs, what="two sections, two steps", each=1)
    docs = castep.docs(chk, ["scf", "energies", "positions"] if chk.quick else CORE, size="one", length=3, iterations=3, gaps=("none",), 
                       limit=chk.pick(2500, 60000), **inv)
    castep.replay(chk, docs, what="three sections, three steps")
    # long runs
    usual = [*CORE, "build", "velocities", "trial", "mintable", "convergence", "linemin", "finalline", "spindensity", "kpoints", "warn", "spins"]
    for kinds, size, length, runs, iterations, n in ((usual, "few", 40, 2, 14, chk.pick(50, 1500)), (castep.KINDS, "wide", 40, 3, 10, chk.pick(40, 1000))):
        docs = castep.docs(chk, kinds, size=size, length=length, runs=runs, iterations=iterations, views=views, gaps=castep.GAPS, simulate=n, **inv)
        castep.replay(chk, docs, what=f"{iterations} steps")
