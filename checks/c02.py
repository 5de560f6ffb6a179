"""C02: line cursors."""
from checks.lines_common import drive
from harness import core


def run(chk):
    with core.scratch() as d:
        small = {"MaxLen": chk.pick(6, 8), "Classes": {"o"}, "Extracts": False}
        drive(chk, d, "file", ["path", "stringio", "offset"], small, chk.pick(60, 400), 120)
        drive(chk, d, "block", ["nested", "iterable"], small, chk.pick(60, 400), 120)
        mixed = {"MaxLen": chk.pick(3, 4), "Classes": {"o", "w", "s"}, "Extracts": False}
        drive(chk, d, "file", ["path", "stringio", "offset"], mixed, chk.pick(3, 20), 60)
        drive(chk, d, "block", ["nested", "iterable"], mixed, chk.pick(3, 20), 60)
        # the line numbers of blocks taken from files and from other blocks, with bounds dropped
        taken = {"MaxLen": chk.pick(4, 5), "Classes": {"s", "e"}, "Extracts": True}
        drive(chk, d, "file", ["path", "stringio", "offset"], taken, 1, 200)
        taken["MaxLen"] = chk.pick(3, 5)
        drive(chk, d, "block", ["nested"], taken, chk.pick(3, 5), 200)
    chk.assumptions.append("stepping a block back after it has reported its end is not constrained")
