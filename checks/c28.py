"""C28 reflection lists and centring."""
import math

import numpy as np
import torch

from vlib import gen, hall, xtal
from vlib.harness import finish_module, st, sub
from vlib.tu import N

from checks.c27 import make, tri

RULE = "A case is a space group with a lattice and a resolution limit; non-trivial when the lattice is centred or oblique and at least one reflection is inside the limit."
ASSUMPTIONS = ["the brute-force search covers every index with |h| <= |a|/dmin + 1, which contains all reflections inside the limit",
               "limits within 1e-6 (relative) of a plane spacing are moved away, since the boundary is a tie"]


def centring(sg):
    """lattice translations, in 1/24, from the Hall symbol"""
    return [t for r, t in hall.group(sg, 1) if r == (1, 0, 0, 0, 1, 0, 0, 0, 1)]


def allowed(sg, g):
    """a reflection is allowed by the centring when every lattice translation is a whole number of its planes"""
    t = np.array(centring(sg))
    return ((g @ t.T) % hall.D == 0).all(-1)


def setup(c):
    r = gen.rng(c["seed"])
    sg = c["sg"]
    if sg <= 2:
        abc, ang = tri(r, mild=not c["wild"])
    else:
        abc, ang = xtal.lattice(sg, r)
    if c["long"]:
        abc = tuple(x * f for x, f in zip(abc, [1, 1, 2.5]))
    G = np.linalg.inv(xtal.gram(abc, ang)[0])
    vol = 1 / math.sqrt(np.linalg.det(G))
    dmin = (4.19 * vol / c["count"]) ** (1 / 3)  # about this many lattice points inside the limit
    dmin = max(dmin, max(abc) / 24)
    lim = [int(math.floor(x / dmin)) + 1 for x in abc]
    g = np.stack(np.meshgrid(*[np.arange(-m, m + 1) for m in lim], indexing="ij"), -1).reshape(-1, 3)
    g = g[(g != 0).any(1)]
    d = 1 / np.sqrt(np.einsum("ni,ij,nj->n", g, G, g))
    while (np.abs(d / dmin - 1) < 1e-6).any() or any(abs(x / dmin - round(x / dmin)) < 1e-6 for x in abc):
        dmin *= 1.0000073
    if c["f32"]:
        while (np.abs(d / dmin - 1) < 1e-4).any():
            dmin *= 1.00013
    cell = make(abc, ang, sg)
    if c["f32"]:
        cell = cell.set_fp_dtype(torch.float32)
    return cell, abc, G, dmin, g, d


def rows(a):
    return set(map(tuple, np.asarray(a).tolist()))


CASE = st.fixed_dictionaries({"sg": st.one_of(st.integers(1, 230), st.sampled_from([1, 2, 5, 12, 38, 43, 70, 82, 146, 166, 167, 194, 225, 229])), "seed": gen.seeds(),
                              "count": st.sampled_from([1, 6, 20, 60, 200, 600, 1500]), "wild": st.booleans(), "long": st.booleans(), "f32": st.sampled_from([False, False, True])})
nt = lambda c: c["count"] >= 6 and (c["sg"] <= 15 or len(centring(c["sg"])) > 1 or 143 <= c["sg"] <= 194)


def note(c, n):
    return ["%d+" % (10 ** int(math.log10(n))) if n else "none", "C%d" % len(centring(c["sg"]))]


@sub("table", CASE, quick=240, thorough=8000, nontrivial=nt)
def _table(c):
    """exactly the allowed reflections with a spacing above the limit, each once, and never 000"""
    cell, abc, G, dmin, g, d = setup(c)
    for filt in (True, False):
        got = cell.get_reflections(dmin, False, filt)
        assert got.dtype == torch.int64 and got.shape[1] == 3
        want = g[(d > dmin) & (allowed(c["sg"], g) if filt else True)]
        a, b = rows(got), rows(want)
        assert len(a) == len(got), "a reflection is listed twice"
        assert not (b - a), "sg %d, dmin %g: missing %s" % (c["sg"], dmin, sorted(b - a)[:3])
        assert not (a - b), "sg %d, dmin %g: should not be listed %s" % (c["sg"], dmin, sorted(a - b)[:3])
        assert {(-h, -k, -l) for h, k, l in a} == a
    lim = cell.get_hkl_limits(dmin)
    v = g[d > dmin]
    for i in range(3):
        m = int(np.abs(v[:, i]).max()) if len(v) else 0
        assert lim[i] >= m, "index limit %s below %d" % (lim, m)
        assert lim[i] <= math.floor(abc[i] / dmin + 1e-3), "index limit %s too wide" % (lim,)
    return note(c, len(want))


@sub("differences", CASE, quick=160, thorough=5000, nontrivial=nt)
def _diff(c):
    """the difference table holds every difference of two listed reflections, all allowed, each once, and never 000"""
    c = dict(c, count=min(c["count"], 600))
    cell, abc, G, dmin, g, d = setup(c)
    got = N(cell.get_reflections(dmin, True)).astype(int)
    a = rows(got)
    assert len(a) == len(got), "a difference is listed twice"
    assert (0, 0, 0) not in a
    assert allowed(c["sg"], got).all() if len(got) else True
    v = np.concatenate([np.zeros((1, 3), int), g[(d > dmin) & allowed(c["sg"], g)]])
    df = (v[:, None] - v[None]).reshape(-1, 3)
    b = rows(df) - {(0, 0, 0)}
    assert not (b - a), "sg %d, dmin %g: missing difference %s" % (c["sg"], dmin, sorted(b - a)[:3])
    lim = np.array(cell.get_hkl_limits(dmin))
    assert (np.abs(df) <= 2 * lim).all(), "differences beyond twice the index limits"
    if len(got):
        assert (np.abs(got) <= 2 * lim).all(), "table beyond twice the index limits"
    return note(c, len(v))


@sub("centring", st.fixed_dictionaries({"sg": st.integers(1, 230), "seed": gen.seeds()}), quick=250, thorough=4000, nontrivial=lambda c: len(centring(c["sg"])) > 1)
def _cent(c):
    r = gen.rng(c["seed"])
    abc, ang = xtal.lattice(c["sg"], r)
    cell = make(abc, ang, c["sg"])
    g = r.randint(-40, 41, (60, 3))
    want = allowed(c["sg"], g)
    got = cell.is_g_allowed(torch.tensor(g))
    assert got.dtype == torch.bool and got.tolist() == want.tolist(), "sg %d: %s" % (c["sg"], g[N(got) != want][:3].tolist())
    g2 = torch.tensor(g).reshape(3, 20, 3)
    assert cell.is_g_allowed(g2).reshape(-1).tolist() == want.tolist()
    assert bool(cell.is_g_allowed(torch.tensor(g[0]))) == bool(want[0])
    return ["C%d" % len(centring(c["sg"]))]


finish_module(globals())
