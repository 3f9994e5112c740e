"""C29 sampling grids of beam directions cover the sphere under the crystal's point group."""
import functools

import numpy as np
import torch

from vlib import gen, hall, xtal
from vlib.harness import finish_module, st, sub
from vlib.tu import N, close

from checks.c08 import ref_hex, ref_square
from checks.c27 import make
from ebsdtorch.crystallography.kvectors import kvectors_grid

RULE = "A case is a space group, its setting and a grid size; non-trivial when the group is not P1 and the grid has more than nine nodes."
ASSUMPTIONS = ["only the operations that keep the z axis are needed to cover the grid, since every wedge in the package is bounded by them",
               "grid nodes on the equator belong to both hemispheres"]


@functools.lru_cache(None)
def axial(sg):
    """point-group matrices that map the z axis to itself, as (2x2, sign of z)"""
    out = set()
    for r, _ in hall.group(sg, 1):
        if r[2] == r[5] == r[6] == r[7] == 0:
            out.add((r[0], r[1], r[3], r[4], r[8]))
    return sorted(out)


def nodes(hexa, n):
    i, j = [x.ravel() for x in np.meshgrid(np.arange(-n, n + 1), np.arange(-n, n + 1), indexing="ij")]
    if hexa:
        k = np.abs(i - j) <= n
        i, j = i[k], j[k]
    return np.stack([i, j], 1)


def rim(p, hexa, n):
    m = np.abs(p).max(1)
    return (np.maximum(m, np.abs(p[:, 0] - p[:, 1])) if hexa else m) == n


def direction(ij, flag, hexa, n):
    x = ij / float(n)
    if hexa:
        x = np.stack([x[:, 0] - 0.5 * x[:, 1], x[:, 1] * 3**0.5 / 2], 1)
        k = ref_hex(x)
    else:
        k = ref_square(x)
    return k * np.stack([np.ones(len(k)), np.ones(len(k)), flag], 1)


@sub("coverage", st.fixed_dictionaries({"sg": st.integers(1, 230), "n": st.one_of(st.integers(1, 6), st.integers(2, 24)), "second": st.booleans(), "seed": gen.seeds()}),
     quick=700, thorough=12000, nontrivial=lambda c: c["sg"] > 1 and c["n"] >= 2)
def _cov(c):
    """every node of the full two-hemisphere grid is the image of a sampled one; sampled directions are those of their nodes"""
    sg, n = c["sg"], c["n"]
    setting = 2 if c["second"] and " / " in hall.HALL[sg] else 1
    abc, ang = xtal.lattice(sg, gen.rng(c["seed"]))
    cell = make(abc, ang, sg, setting)
    k, ij = kvectors_grid(cell, n)
    k, ij = N(k), N(ij).astype(int)
    hexa = xtal.system(sg) in (5, 6)
    assert k.shape == (len(ij), 3) and ij.shape[1] == 3 and len(ij)
    assert set(np.unique(ij[:, 2])) <= {1, -1}
    assert len(set(map(tuple, ij.tolist()))) == len(ij), "a node is sampled twice"
    assert (np.abs(ij[:, :2]) <= n).all()
    if hexa:
        assert (np.abs(ij[:, 0] - ij[:, 1]) <= n).all(), "node outside the hexagon"
    close(k, direction(ij[:, :2], ij[:, 2], hexa, n), 2e-5, "directions of space group %d" % sg)
    got = set()
    r = rim(ij[:, :2], hexa, n)
    for a, b, d, e, f in axial(sg):
        p = np.stack([a * ij[:, 0] + b * ij[:, 1], d * ij[:, 0] + e * ij[:, 1], f * ij[:, 2]], 1)
        got |= set(map(tuple, p.tolist())) | set(map(tuple, (p[r] * [1, 1, -1]).tolist()))
    full = nodes(hexa, n)
    want = {(x, y, s) for x, y in full.tolist() for s in (1, -1)}
    miss = sorted(want - got)
    assert not miss, "space group %d, half width %d: %d of %d directions are equivalent to no sampled one, for example %s" % (sg, n, len(miss), len(want), miss[0])
    assert got <= want
    return ["system%d" % xtal.system(sg), "both" if (ij[:, 2] < 0).any() else "north"]


WEDGE = {1: (0, 1), 2: (0, 1), 3: (0, 2), 4: (0, 2), 5: (0, 4), 6: (0, 4), 7: (0, 8), 8: (0, 4), 9: (0, 8), 10: (1, 3), 12: (1, 3), 14: (1, 6), 15: (1, 6),
         16: (1, 6), 17: (1, 6), 18: (1, 12), 19: (1, 12)}


@sub("schemes", st.fixed_dictionaries({"st": st.integers(0, 21), "n": st.integers(1, 20)}), quick=150, thorough=2000, nontrivial=lambda c: c["st"] in WEDGE)
def _sch(c):
    """a sampling scheme asked for by number samples a sector of the right size, in one or both hemispheres; unknown ones are refused"""
    n, s = c["n"], c["st"]
    cell = make((.5,) * 3, (90.0,) * 3)
    if s not in WEDGE:
        try:
            kvectors_grid(cell, n, s)
        except (NotImplementedError, ValueError):
            return ["refused"]
        raise AssertionError("scheme %d accepted" % s)
    k, ij = kvectors_grid(cell, n, s)
    hexa, m = WEDGE[s]
    ij = N(ij).astype(int)
    close(N(k), direction(ij[:, :2], ij[:, 2], hexa, n), 2e-5, "directions of scheme %d" % s)
    both = s in (1, 3, 4, 5, 7, 10, 14, 15, 18)
    assert (ij[:, 2] < 0).any() == both
    full = len(nodes(hexa, n))
    north = int((ij[:, 2] > 0).sum())
    assert north * m >= full, "scheme %d: %d nodes are fewer than 1/%d of %d" % (s, north, m, full)
    assert north * m <= full + 4 * m * (2 * n + 1), "scheme %d samples more than its sector" % s
    if both:
        assert set(map(tuple, (ij[ij[:, 2] < 0] * [1, 1, -1]).tolist())) == set(map(tuple, ij[ij[:, 2] > 0].tolist()))
    return ["hex" if hexa else "square"]


finish_module(globals())
