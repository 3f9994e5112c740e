"""C12 Laue group of every space group and point group."""
import re

from vlib.harness import finish_module, st, sub

from ebsdtorch.utils.symmetry_classes import point_group_to_laue, space_group_to_laue

RULE = "A case is a space-group number (also out of range) or a point-group symbol; non-trivial when it is a valid one."
ASSUMPTIONS = ["crystal classes of the 230 space groups by the number ranges of the International Tables, vol. A"]

# last space-group number of each of the 32 crystal classes (International Tables order)
LAST = [(1, "1"), (2, "-1"), (5, "2"), (9, "m"), (15, "2/m"), (24, "222"), (46, "mm2"), (74, "mmm"), (80, "4"), (82, "-4"),
        (88, "4/m"), (98, "422"), (110, "4mm"), (122, "-42m"), (142, "4/mmm"), (146, "3"), (148, "-3"), (155, "32"), (161, "3m"),
        (167, "-3m"), (173, "6"), (174, "-6"), (176, "6/m"), (182, "622"), (186, "6mm"), (190, "-6m2"), (194, "6/mmm"),
        (199, "23"), (206, "m-3"), (214, "432"), (220, "-43m"), (230, "m-3m")]
LAUE_OF_PG = {"1": 1, "-1": 1, "2": 2, "m": 2, "2/m": 2, "222": 3, "mm2": 3, "mmm": 3, "4": 4, "-4": 4, "4/m": 4, "422": 5,
              "4mm": 5, "-42m": 5, "4/mmm": 5, "3": 6, "-3": 6, "32": 7, "3m": 7, "-3m": 7, "6": 8, "-6": 8, "6/m": 8,
              "622": 9, "6mm": 9, "-6m2": 9, "6/mmm": 9, "23": 10, "m-3": 10, "432": 11, "-43m": 11, "m-3m": 11}


def pg_of_space_group(n):
    return next(p for last, p in LAST if n <= last)


def laue_of_space_group(n):
    return LAUE_OF_PG[pg_of_space_group(n)]


def here(p):
    """the package writes the bar behind the digit: -42m -> 4-2m, m-3 -> m3-"""
    return re.sub(r"-(\d)", r"\1-", p)


@sub("space_group", st.integers(-3, 240).map(lambda n: {"sg": n}), quick=400, nontrivial=lambda c: 1 <= c["sg"] <= 230)
def _sg(c):
    n = c["sg"]
    for s in ([n] if not 1 <= n <= 230 else range(1, 231)):  # the whole table is checked with every valid case
        if 1 <= s <= 230:
            got = space_group_to_laue(s)
            assert got == laue_of_space_group(s), "space group %d: Laue group %r, expected %d" % (s, got, laue_of_space_group(s))
        else:
            try:
                got = space_group_to_laue(s)
            except Exception:
                return ["invalid"]
            raise AssertionError("space group %d accepted as Laue group %r" % (s, got))
    return ["valid"]


@sub("point_group", st.sampled_from([p for _, p in LAST]).map(lambda p: {"pg": p}), quick=64)
def _pg(c):
    for _, p in LAST:
        got = point_group_to_laue(here(p))
        assert got == LAUE_OF_PG[p], "point group %s: Laue group %r" % (p, got)
    bad = c["pg"] + "x"
    try:
        point_group_to_laue(bad)
    except Exception:
        return []
    raise AssertionError("point group %r accepted" % bad)


finish_module(globals())
