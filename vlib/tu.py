"""small torch/numpy helpers shared by the checks"""
import itertools
import math

import numpy as np
import torch

from . import rot

DT = {"f64": torch.float64, "f32": torch.float32, "f16": torch.float16}


def T(x, dt="f64"):
    return torch.tensor(np.asarray(x, dtype=np.float64), dtype=DT[dt])


def N(t):
    return t.detach().double().cpu().numpy()


def close(a, b, tol, what=""):
    a = np.asarray(a)
    b = np.asarray(b)
    assert a.shape == b.shape, "%s shape %s, expected %s" % (what, a.shape, b.shape)
    if a.size == 0:
        return
    d = np.abs(a - b)
    bad = ~(d <= tol)
    if bad.any():
        i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape)
        raise AssertionError("%s differs at %s: got %r, expected %r (tolerance %.3g)" % (
            what, tuple(int(k) for k in i), a[i].item(), b[i].item(), tol if np.isscalar(tol) else float("nan")))


def rel_close(a, b, rtol, what="", atol=0.0):
    b = np.asarray(b)
    close(a, b, atol + rtol * max(float(np.abs(b).max()) if b.size else 0.0, 1e-300), what)


def _ax(axis, ang):
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    return np.concatenate([[math.cos(ang / 2)], math.sin(ang / 2) * a])


def closure(gens):
    els = [np.array([1.0, 0, 0, 0])]
    frontier = list(els)
    while frontier:
        new = []
        for f in frontier:
            for g in gens:
                p = rot.qmul(f, g)
                if not any(abs(abs(p @ e) - 1) < 1e-9 for e in els):
                    els.append(p)
                    new.append(p)
        frontier = new
        if len(els) > 100:
            raise RuntimeError("runaway closure")
    return np.array(els)


_Z, _X = [0, 0, 1], [1, 0, 0]
_GENS = {
    1: [], 2: [_ax(_Z, math.pi)], 3: [_ax(_Z, math.pi), _ax(_X, math.pi)], 4: [_ax(_Z, math.pi / 2)],
    5: [_ax(_Z, math.pi / 2), _ax(_X, math.pi)], 6: [_ax(_Z, 2 * math.pi / 3)],
    7: [_ax(_Z, 2 * math.pi / 3), _ax(_X, math.pi)], 8: [_ax(_Z, math.pi / 3)],
    9: [_ax(_Z, math.pi / 3), _ax(_X, math.pi)], 10: [_ax(_Z, math.pi), _ax([1, 1, 1], 2 * math.pi / 3)],
    11: [_ax(_Z, math.pi / 2), _ax([1, 1, 1], 2 * math.pi / 3)],
}
LAUE = {k: closure(v) for k, v in _GENS.items()}
LAUE_ORDER = {1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 6: 3, 7: 6, 8: 6, 9: 12, 10: 12, 11: 24}
for _k, _v in LAUE_ORDER.items():
    assert len(LAUE[_k]) == _v


def fz_cos(q, laue):
    """|Re(s q)| for every s: shape (N, |G|)"""
    return np.abs(rot.qmul(LAUE[laue][None], np.asarray(q, float)[:, None])[..., 0])


def qdist(a, b):
    """angle between rotations a, b (quaternions), accurate for small angles"""
    return rot.q_angle(rot.qmul(a, rot.qconj(b)))
