"""Structured generators.  Every strategy yields plain JSON-serialisable data."""
import math

import numpy as np

from .harness import st

SQ = math.sqrt(0.5)


def seeds():
    return st.integers(0, 2**31 - 1)


def rng(seed):
    return np.random.RandomState(seed % (2**32))


_SPECIAL_AXES = [
    [1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], [-1.0, 0, 0], [0, -1.0, 0], [0, 0, -1.0],
    [SQ, SQ, 0], [SQ, -SQ, 0], [SQ, 0, SQ], [-SQ, 0, SQ], [0, SQ, SQ], [0, -SQ, SQ],
    [3**-0.5] * 3, [-3**-0.5, 3**-0.5, 3**-0.5], [3**-0.5, -3**-0.5, 3**-0.5], [3**-0.5, 3**-0.5, -3**-0.5],
    [0.5, 3**0.5 / 2, 0], [3**0.5 / 2, 0.5, 0], [-0.5, 3**0.5 / 2, 0], [0.6, 0.8, 0.0], [0.0, 0.6, -0.8],
    [-0.6, 0.0, 0.8], [1 / 3, 2 / 3, 2 / 3], [-2 / 3, 1 / 3, 2 / 3],
]
_SPECIAL_ANGLES = [0.0, math.pi, math.pi / 2, 2 * math.pi / 3, math.pi / 3, math.pi / 4, math.pi / 6, 1.0, 2.5]


def unit_axis(draw):
    kind = draw(st.integers(0, 2))
    if kind == 0:
        return list(_SPECIAL_AXES[draw(st.integers(0, len(_SPECIAL_AXES) - 1))])
    v = rng(draw(seeds())).randn(3)
    if kind == 2:  # one component far smaller than the others, or exactly zero
        v[draw(st.integers(0, 2))] *= 10.0 ** (-draw(st.integers(1, 10)))
    return (v / np.linalg.norm(v)).tolist()


QU_KINDS = ["haar", "special", "nearid", "near180", "axis180", "free"]


@st.composite
def quaternion(draw, kinds=None, small=1e-9):
    """unit quaternion with w >= 0, float64"""
    kind = draw(st.sampled_from(kinds or QU_KINDS))
    if kind == "haar":
        q = rng(draw(seeds())).randn(4)
    elif kind == "special":
        ax = np.array(_SPECIAL_AXES[draw(st.integers(0, len(_SPECIAL_AXES) - 1))])
        a = draw(st.sampled_from(_SPECIAL_ANGLES))
        q = np.concatenate([[math.cos(a / 2) if a != math.pi else 0.0], math.sin(a / 2) * ax])
    elif kind == "nearid":
        a = 10.0 ** draw(st.floats(math.log10(small), -0.5))
        q = np.concatenate([[math.cos(a / 2)], math.sin(a / 2) * np.array(unit_axis(draw))])
    elif kind == "near180":
        a = 10.0 ** draw(st.floats(math.log10(small), -0.5))
        q = np.concatenate([[math.sin(a / 2)], math.cos(a / 2) * np.array(unit_axis(draw))])
    elif kind == "axis180":
        q = np.concatenate([[0.0], unit_axis(draw)])
    else:
        ax = np.array(unit_axis(draw))
        a = draw(st.floats(0.0, math.pi))
        q = np.concatenate([[math.cos(a / 2)], math.sin(a / 2) * ax])
    q = q / np.linalg.norm(q)
    if q[0] < 0:
        q = -q
    return [float(v) + 0.0 for v in q]


def quats(min_size=1, max_size=6, kinds=None, small=1e-9):
    return st.lists(quaternion(kinds=kinds, small=small), min_size=min_size, max_size=max_size)


@st.composite
def s2_point(draw):
    """unit vector: Haar, crystallographically special, or near the poles/axes"""
    kind = draw(st.integers(0, 3))
    if kind == 0:
        v = rng(draw(seeds())).randn(3)
    elif kind == 1:
        v = np.array(_SPECIAL_AXES[draw(st.integers(0, len(_SPECIAL_AXES) - 1))])
    elif kind == 2:
        v = np.array([draw(st.integers(-4, 4)) for _ in range(3)], float)
        if not v.any():
            v = np.array([0, 0, 1.0])
    else:
        v = np.array(unit_axis(draw)) + 10.0 ** draw(st.floats(-9, -1)) * rng(draw(seeds())).randn(3)
    v = v / np.linalg.norm(v)
    return [float(x) + 0.0 for x in v]


def s2_points(min_size=1, max_size=8):
    return st.lists(s2_point(), min_size=min_size, max_size=max_size)


def dtypes():
    return st.sampled_from(["f64", "f32"])


@st.composite
def size(draw, lo, hi, *big, rare=10):
    """an integer of [lo, hi], now and then one of the large sizes"""
    if draw(st.integers(0, rare - 1)) == rare - 1:
        return draw(st.sampled_from(list(big)))
    return draw(st.integers(lo, hi))
