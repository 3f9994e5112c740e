"""C06 fundamental sector of directions."""
import math

import numpy as np
import torch

from vlib import batch, gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import LAUE, LAUE_ORDER, N, T, close

from ebsdtorch.s2_and_so3 import laue_fz_ori as F
from ebsdtorch.s2_and_so3 import laue_fz_s2 as S

RULE = ("A case is a Laue id and 1-8 unit vectors (random, low-index, mirror-plane, pole or near-special) moved by "
        "random symmetry operators; non-trivial when the Laue class has more than the trivial rotation.")
ASSUMPTIONS = ["sectors written independently as intersections of half-spaces",
               "single precision judged away from sector boundaries (1e-3), double precision also exactly on them",
               "boundary points nearer than 0.01 to (but not at) the pole are judged only by equivalence"]

CPU = torch.device("cpu")


def _az(a, b):
    a, b = math.radians(a), math.radians(b)
    return [[-math.sin(a), math.cos(a), 0], [math.sin(b), -math.cos(b), 0]]


_UP = [[0, 0, 1.0]]
SECTOR = {
    1: _UP, 2: _UP + [[0, 1.0, 0]], 3: _UP + _az(0, 90), 4: _UP + _az(0, 90), 5: _UP + _az(0, 45), 6: _UP + _az(-120, 0),
    7: _UP + _az(-90, -30), 8: _UP + _az(0, 60), 9: _UP + _az(0, 30),
    10: [[1.0, 0, 0], [0, 1.0, 0], [-1, 0, 1.0], [0, -1, 1.0]],
    11: [[0, 1.0, 0], [1.0, -1, 0], [-1, 0, 1.0]],
}
MIRROR = {3, 5, 9, 11}  # the closed sector is a domain of a reflection group: unique even on the boundary


def depth(p, k):
    return (np.asarray(p) @ np.array(SECTOR[k]).T).min(axis=-1)


def orbit(p, k):
    rp = rot.qrot(LAUE[k][None], np.asarray(p)[:, None])
    return np.concatenate([rp, -rp], axis=1)


@st.composite
def cases(draw):
    k = draw(st.integers(1, 11))
    pts = []
    for _ in range(draw(st.integers(1, 8))):
        p = np.array(draw(gen.s2_point()))
        if draw(st.integers(0, 2)) == 0:  # push onto a random face of the sector
            n = np.array(SECTOR[k][draw(st.integers(0, len(SECTOR[k]) - 1))])
            n = n / np.linalg.norm(n)
            v = p - (p @ n) * n
            if np.linalg.norm(v) > 0.1:
                p = v / np.linalg.norm(v)
        p = rot.qrot(LAUE[k][draw(st.integers(0, 23)) % LAUE_ORDER[k]], p) * draw(st.sampled_from([1, -1]))
        pts.append([float(x) + 0.0 for x in p / np.linalg.norm(p)])
    return {"laue": k, "p": pts, "dt": draw(gen.dtypes()), "i": draw(st.integers(0, 23)), "sg": draw(st.sampled_from([1, -1]))}


def nontrivial(c):
    return c["laue"] > 1


def pole_ok(p):
    r = np.linalg.norm(np.asarray(p)[..., :2], axis=-1)
    return (r == 0) | (r > 0.01)


@sub("membership", cases(), quick=600, nontrivial=nontrivial)
def _member(c):
    k, dt = c["laue"], c["dt"]
    p = orbit(c["p"], k).reshape(-1, 3)
    got = S.s2_in_fz_laue(T(p, dt), k).numpy()
    assert got.dtype == bool and got.shape == (len(p),)
    d = depth(p, k)
    m = 1e-3 if dt == "f32" else 1e-9
    assert got[d > m].all(), "interior point rejected: %s" % p[(d > m) & ~got][:1]
    assert not got[d < -m].any(), "outside point accepted: %s" % p[(d < -m) & got][:1]
    if dt == "f64":
        b = (d > -1e-15) & pole_ok(p)
        assert got[b].all(), "boundary point rejected: %s" % p[b & ~got][:1]
    shaped = S.s2_in_fz_laue(T(p, dt).reshape(-1, 2 * LAUE_ORDER[k], 3), k).numpy()
    assert (shaped.reshape(-1) == got).all()
    return ["boundary"] if (np.abs(d) < 1e-12).any() else ["generic"]


@sub("reduce", cases(), quick=600, nontrivial=nontrivial)
def _reduce(c):
    k, dt = c["laue"], c["dt"]
    p = np.array(c["p"])
    tol = {"f64": 1e-9, "f32": 1e-5}[dt]
    t = T(p, dt)
    keep = t.clone()
    out = N(S.s2_to_fz_laue(t, k))
    assert torch.equal(t, keep), "input modified"
    assert out.shape == p.shape, "shape %s for %d points" % (out.shape, len(p))
    O = orbit(p, k)
    e = np.linalg.norm(O - out[:, None], axis=-1).min(axis=1)
    assert (e < tol).all(), "not an equivalent direction"
    D = depth(O, k)
    generic = np.abs(D).min(axis=1) > 1e-3
    judged = generic if dt == "f32" else pole_ok(O).all(axis=1)
    assert (depth(out, k)[judged] > -1e-6).all(), "outside the sector: %s" % out[judged]
    # orbit constancy and idempotence
    s = LAUE[k][c["i"] % LAUE_ORDER[k]]
    p2 = rot.qrot(s, p) * c["sg"]
    out2 = N(S.s2_to_fz_laue(T(p2, dt), k))
    j = judged if k in MIRROR else generic
    if j.any():
        close(out2[j], out[j], 10 * tol, "equivalent directions share one representative")
        close(N(S.s2_to_fz_laue(T(out, dt), k))[j], out[j], 10 * tol, "idempotent")
    big = N(S.s2_to_fz_laue(t.reshape(1, len(p), 1, 3), k))
    close(big, out.reshape(1, len(p), 1, 3), 0.0, "batch shape")
    return ["generic" if generic.all() else "boundary"]


@sub("sample", st.fixed_dictionaries({"laue": st.integers(1, 11), "n": st.integers(20, 3000)}), quick=60,
     nontrivial=nontrivial)
def _sample(c):
    k, n = c["laue"], c["n"]
    for name, f in (("fibonacci", S.sample_s2_fz_laue_fibonacci), ("rosca", S.sample_s2_fz_laue_rosca)):
        p = N(f(k, n, CPU))
        close(np.linalg.norm(p, axis=-1), np.ones(len(p)), 1e-5, name + " unit vectors")
        assert (depth(p, k) > -1e-4).all(), name + " outside the sector"
        lo, hi = n - 4 * math.sqrt(n) - 3, n + 4 * math.sqrt(n) + 3
        assert lo <= len(p) <= hi, "%s: %d samples for a target of %d" % (name, len(p), n)
        d = np.linalg.norm(p[: 400, None] - p[None, :400], axis=-1) + 10 * np.eye(min(len(p), 400))
        assert d.min() > 1e-4, name + " duplicates"
        if n >= 500:  # uniform: the mean of the samples is the centroid of the sector
            ref = CENT[k]
            assert np.linalg.norm(p.mean(axis=0) - ref) < 4 / math.sqrt(n), name + " not uniform"
    return ["laue%d" % k]


def _centroid(k):
    r = np.random.RandomState(k).randn(400000, 3)
    r /= np.linalg.norm(r, axis=1, keepdims=True)
    return r[depth(r, k) > 0].mean(axis=0)


CENT = {k: _centroid(k) for k in SECTOR}


@sub("colour", st.fixed_dictionaries({
    "laue": st.integers(1, 11), "q": gen.quats(1, 5, kinds=["haar", "free"]), "ref": gen.s2_point(),
    "i": st.integers(0, 23), "dt": gen.dtypes()}), quick=300, nontrivial=nontrivial)
def _colour(c):
    k, q, r = c["laue"], np.array(c["q"]), np.array(c["ref"])
    got = F.ori_color_laue(T(q, c["dt"]), T(r, c["dt"]), k)
    assert got.shape == (len(q), 3) and got.dtype == torch.uint8
    v = rot.qrot(q, r[None])
    ok = (np.abs(depth(orbit(v, k), k)).min(axis=1) > 1e-2)
    two = F.ori_color_laue(T(rot.qmul(LAUE[k][c["i"] % LAUE_ORDER[k]], q), c["dt"]), T(r, c["dt"]), k)
    d = (got.int() - two.int()).numpy() % 256
    d = np.minimum(d, 256 - d)
    # colour steps at hue sector edges are continuous, so rounding moves a byte by a few units at most
    assert (d[ok] <= (1 if c["dt"] == "f64" else 3)).all(), "equivalent orientations get different colours %s %s" % (got, two)
    return ["laue%d" % k]


batch.add({
    "s2_in_fz_laue": {"fn": S.s2_in_fz_laue, "make": lambda r, n: [batch.dirs(r, n)], "opts": list(range(1, 12))},
    "s2_to_fz_laue": {"fn": S.s2_to_fz_laue, "make": lambda r, n: [batch.dirs(r, n)], "opts": list(range(1, 12)), "cap": 66000},
    "s2_equiv_laue": {"fn": S.s2_equiv_laue, "make": lambda r, n: [batch.dirs(r, n)], "opts": list(range(1, 12)), "cap": 66000},
}, quick=150)


finish_module(globals())
