"""C03: block extraction."""
from checks.lines_common import drive
from harness import core


def run(chk):
    with core.scratch() as d:
        consts = {"MaxLen": chk.pick(3, 4), "Classes": {"o", "w", "s", "e", "b"}, "Extracts": True}
        drive(chk, d, "file", ["path", "stringio", "offset"], consts, chk.pick(1, 3), 200)
        consts["MaxLen"] = 3
        drive(chk, d, "block", ["nested", "iterable"], consts, chk.pick(1, 5), 200)
        deep = {"MaxLen": chk.pick(5, 7), "Classes": {"s", "e"}, "Extracts": True}
        drive(chk, d, "file", ["path", "stringio"], deep, 1, 200)
        deep["MaxLen"] = chk.pick(4, 6)
        drive(chk, d, "block", ["nested"], deep, 1, 200)
