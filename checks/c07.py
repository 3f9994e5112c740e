"""C07 uniform sampling of the sphere and of SO(3)."""
import math

import numpy as np
import torch
from scipy.spatial import cKDTree

from vlib import gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import N, close

from ebsdtorch.s2_and_so3 import sampling as SM

RULE = "A case is a sample size (log-uniform) and a mode or random seed; non-trivial when at least 30 samples are drawn."
ASSUMPTIONS = ["random samplers judged by moments with a 6.5 sigma band", "lattices judged by moments and nearest neighbours"]
CPU = torch.device("cpu")


def nontrivial(c):
    return c["n"] >= 30


@st.composite
def sizes(draw, hi=20000):
    if draw(st.integers(0, 3)) == 0:
        return {"n": draw(st.sampled_from([2, 3, 23, 24, 25, 176, 177, 178, 889, 890, 891, 10999, 11000, 11001]))}
    if draw(st.integers(0, 11)) == 0:
        return {"n": draw(st.sampled_from([30000, 65537, 150000, 400000, 600001]))}
    return {"n": int(2 ** draw(st.floats(1, math.log2(hi))))}


def nearest(p):
    """distance of each point to its nearest neighbour"""
    return cKDTree(p).query(p, k=2)[0][:, 1]


def nn(p, take, metric):
    idx = np.linspace(0, len(p) - 1, min(take, len(p))).astype(int)
    out = []
    for i in idx:
        d = metric(p[i], p)
        d[i] = np.inf
        out.append(d.min())
    return np.array(out)


# offsets of the lattice that maximises the spacing, by number of points
CAPS = [(600000, 214.0), (400000, 75.0), (11000, 27.0), (890, 10.0), (177, 3.33), (24, 1.33), (0, 0.33)]


@sub("s2_fibonacci", sizes(), quick=120, nontrivial=nontrivial)
def _s2(c):
    n = c["n"]
    for mode in ("avg", "max"):
        p = N(SM.s2_fibonacci(n, CPU, mode))
        assert p.shape == (n, 3)
        close(np.linalg.norm(p, axis=1), np.ones(n), 1e-12, "unit")
        # equal-area: sorted heights are evenly spaced in z and the moments are those of the sphere
        dz = np.diff(p[:, 2])
        assert (dz < 0).all() and np.ptp(dz) < 1e-9, "heights are not evenly spaced"
        if n >= 100:
            close(p.mean(axis=0), np.zeros(3), 6 / n, mode + " centred")
            eps = 400 / n if mode == "max" else 4 / n
            close(p.T @ p / n, np.eye(3) / 3, eps, mode + " isotropic")
        # the lattice leaves caps around the poles, of a size known for each number of points
        e = 0.36 if mode == "avg" else [v for m, v in CAPS if n >= m][0]
        assert 1 - np.abs(p[[0, -1], 2]).min() <= 2.4 * e / (n - 1 + 2 * e), "%s leaves a cap of height %g around the pole" % (mode, 1 - np.abs(p[[0, -1], 2]).min())
        if n >= 24:
            d = nearest(p) * math.sqrt(n)
            assert d.min() > 1.0 and d.max() < 4.2, "%s nearest neighbours %g %g" % (mode, d.min(), d.max())
    return ["n<100" if n < 100 else "n>=100"]


def mis(a, b):
    return np.sqrt(np.maximum(0.0, 2 - 2 * np.abs(b @ a)))


@sub("so3_fibonacci", sizes(), quick=120, nontrivial=nontrivial)
def _so3(c):
    n = c["n"]
    q = N(SM.so3_fibonacci(n, CPU))
    assert q.shape == (n, 4)
    close(np.linalg.norm(q, axis=1), np.ones(n), 1e-12, "unit")
    if n >= 50:
        close(q.T @ q / n, np.eye(4) / 4, 4 / math.sqrt(n) * 0.25, "isotropic")
        close((q**4).mean(axis=0), np.full(4, 1 / 8), 4 / math.sqrt(n) * 0.25, "fourth moment")
        d = nearest(np.concatenate([q, -q]))[:n] * n ** (1 / 3)
        assert d.min() > 0.45, "nearest neighbour spacing %g" % d.min()
        assert np.median(d) > 0.8, "median spacing %g" % np.median(d)
    return []


@sub("so3_random", st.fixed_dictionaries({"n": st.integers(2000, 60000), "seed": gen.seeds()}), quick=60,
     nontrivial=nontrivial)
def _rand(c):
    n = c["n"]
    for name, f in (("so3_cu_rand", lambda: SM.so3_cu_rand(n, CPU)),
                    ("so3_uniform_quat", lambda: SM.so3_uniform_quat(n, CPU)),
                    ("so3_uniform_quat f64", lambda: SM.so3_uniform_quat(n, CPU, torch.float64))):
        torch.manual_seed(c["seed"])
        q = N(f())
        assert q.shape == (n, 4)
        close(np.linalg.norm(q, axis=1), np.ones(n), 1e-5, name + " unit")
        if name == "so3_cu_rand":
            assert (q[:, 0] >= -1e-6).all(), "negative real part"
        else:
            neg = (q[:, 0] < 0).mean()
            assert abs(neg - 0.5) < 6.5 * 0.5 / math.sqrt(n), "both hemispheres"
            close(q.mean(axis=0), np.zeros(4), 6.5 * 0.5 / math.sqrt(n), name + " mean")
        P = np.einsum("ni,nj->nij", q, q)
        sig = np.where(np.eye(4, dtype=bool), math.sqrt(1 / 8 - 1 / 16), math.sqrt(1 / 24))
        z = (P.mean(axis=0) - np.eye(4) / 4) / sig * math.sqrt(n)
        assert np.abs(z).max() < 6.5, name + " second moments off by %g sigma" % np.abs(z).max()
        s4 = math.sqrt(7 / 128 - 1 / 64)
        z = ((q**4).mean(axis=0) - 1 / 8) / s4 * math.sqrt(n)
        assert np.abs(z).max() < 6.5, name + " fourth moments off by %g sigma" % np.abs(z).max()
        # Haar distribution of the rotation angle: F(a) = (a - sin a) / pi
        a = np.sort(rot.q_angle(q))
        F = (a - np.sin(a)) / math.pi
        ks = np.abs(F - np.arange(1, n + 1) / n).max() * math.sqrt(n)
        assert ks < 3.5, name + " rotation angle distribution KS %g" % ks
        R = rot.q2R(q)
        z = R.mean(axis=0) * math.sqrt(3 * n)
        assert np.abs(z).max() < 6.5, name + " mean rotation %g sigma" % np.abs(z).max()
    return []


@sub("cubochoric_grid", st.fixed_dictionaries({"n": st.integers(1, 13)}), quick=13, nontrivial=lambda c: c["n"] >= 3)
def _grid(c):
    e = c["n"]
    q = N(SM.so3_cubochoric_grid(e, CPU))
    assert q.shape == (e**3, 4)
    close(np.linalg.norm(q, axis=1), np.ones(e**3), 1e-5, "unit")
    assert (q[:, 0] >= -1e-6).all()
    if e >= 2:
        d = nn(q, 400, mis)
        assert d.min() > 0.4 / e, "grid points coincide (%g)" % d.min()
        cu = np.round((rot_to_cu(q) / math.pi ** (2 / 3) + 0.5) * e) % e
        ins = np.unique(cu, axis=0)
        w = np.abs(q[:, 0]) > 1e-3  # the cube surface is two-to-one
        assert len(np.unique(cu[w], axis=0)) == w.sum(), "not a regular grid"
        assert len(ins) >= w.sum()
    return []


def rot_to_cu(q):
    return rot.ho2cu(rot.q2ho(q))


finish_module(globals())
