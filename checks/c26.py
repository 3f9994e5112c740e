"""C26 operators of every space group, in both settings."""
import functools

import numpy as np
import torch

from vlib import gen, hall
from vlib.harness import finish_module, st, sub

from ebsdtorch.crystallography import groups as G

RULE = ("A case is a handful of space-group numbers drawn at random, in each of their settings, or pairs of operators of one group; "
        "non-trivial when a group has more than the identity.")
ASSUMPTIONS = ["Hall symbols of the 230 groups (and of the second origin choice of the 24 groups that have one) as in the International Tables, vol. B",
               "translations are multiples of 1/24, which holds for every setting"]


def code(m, where):
    m = np.asarray(m, dtype=np.float64)
    assert m.shape == (4, 4)
    assert (m[3] == [0, 0, 0, 1]).all(), "%s: last row of an operator is %s" % (where, m[3].tolist())
    r = np.rint(m[:3, :3])
    assert np.abs(r - m[:3, :3]).max() < 1e-9, "%s: rotation part %s" % (where, m[:3, :3].tolist())
    t = m[:3, 3] * hall.D
    k = np.rint(t)
    assert np.abs(t - k).max() < 1e-6, "%s: translation %s" % (where, m[:3, 3].tolist())
    assert ((m[:3, 3] > -1e-9) & (m[:3, 3] < 1)).all(), "%s: translation %s outside the cell" % (where, m[:3, 3].tolist())
    return tuple(int(x) for x in r.ravel()), tuple(int(x) % hall.D for x in k)


def text(op):
    return "%s + %s/24" % (np.reshape(op[0], (3, 3)).tolist(), list(op[1]))


def settings(sg):
    return [1, 2] if " / " in hall.HALL[sg] else [1]


@functools.lru_cache(None)
def operators(sg, setting):
    o = G.sg_operators(sg, setting).numpy()
    where = "space group %d setting %d" % (sg, setting)
    got = [code(m, where) for m in o]
    assert len(set(got)) == len(got), "%s: an operator occurs twice" % where
    return o, set(got), where


SG = st.integers(1, 230)


@sub("tables", st.fixed_dictionaries({"sgs": st.lists(SG, min_size=4, max_size=12)}), quick=240, thorough=1500,
     nontrivial=lambda c: any(s > 1 for s in c["sgs"]))
def _tab(c):
    """the operators are exactly those of the Hall symbol, once each"""
    for sg in c["sgs"]:
        assert (sg in G.sg_two_settings) == (len(settings(sg)) == 2), "settings of space group %d" % sg
        for k in settings(sg):
            _, got, where = operators(sg, k)
            want = hall.group(sg, k)
            miss, extra = sorted(want - got), sorted(got - want)
            assert not miss and not extra, "%s (%s): missing %s; not in the group %s" % (
                where, hall.HALL[sg], [text(x) for x in miss[:2]], [text(x) for x in extra[:2]])
            assert len(got) == G.sg_ords[sg - 1], "%s: order table says %d" % (where, G.sg_ords[sg - 1])
        lat = hall.HALL[sg].lstrip("-")[0]
        assert G.sg_names[sg - 1][1] == lat, "centring of space group %d: %r" % (sg, G.sg_names[sg - 1])
        prim = {r for r, t in hall.group(sg, 1) if t in hall._LAT[lat]}
        assert (sg in G.sg_symmorphic) == (len(prim) == len({r for r, _ in hall.group(sg, 1)})), "symmorphic list, space group %d" % sg
    return ["two" if any(len(settings(s)) == 2 for s in c["sgs"]) else "one"]


@sub("algebra", st.fixed_dictionaries({"sg": SG, "second": st.booleans(), "seed": gen.seeds()}), quick=300, thorough=4000, nontrivial=lambda c: c["sg"] > 1)
def _alg(c):
    """as matrices the operators compose, invert and act on points as the group does"""
    sg = c["sg"]
    k = settings(sg)[-1] if c["second"] else 1
    o, got, where = operators(sg, k)
    r = gen.rng(c["seed"])
    i, j = r.randint(0, len(o), (2, 30))
    x = np.append(r.rand(3), 1.0)
    for a, b in zip(o[i], o[j]):
        p = a @ b
        p[:3, 3] %= 1.0
        p[:3, 3][p[:3, 3] > 1 - 1e-9] = 0
        assert code(p, where) in got, "%s: product of %s and %s is not an operator" % (where, a.tolist(), b.tolist())
        assert np.abs((np.linalg.inv(a) @ (a @ x))[:3] - x[:3]).max() < 1e-12
        q = np.linalg.inv(a)
        q[:3, 3] %= 1.0
        q[:3, 3][q[:3, 3] > 1 - 1e-9] = 0
        assert code(q, where) in got, "%s: inverse of %s is not an operator" % (where, a.tolist())
    got2 = G.matmul_trans_mod(torch.tensor(o[i]), torch.tensor(o[j])).numpy()
    for a, b, p in zip(o[i], o[j], got2):
        assert code(p, where) == hall.mul(code(a, where), code(b, where)), "%s: matmul_trans_mod(%s, %s)" % (where, a.tolist(), b.tolist())
    return ["setting%d" % k]


finish_module(globals())
