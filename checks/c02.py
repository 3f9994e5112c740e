"""C02 quaternion algebra is the algebra of rotations."""
import math

import numpy as np
import torch

from vlib import batch, gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import N, T, close

from ebsdtorch.s2_and_so3 import quaternions as Q

RULE = ("Cases are pairs/lists of unit quaternions (Haar, special, near-identity, near/at 180 deg), 3-vectors, unit "
        "vectors incl. (anti)parallel pairs, an interpolation parameter and a dtype; non-trivial unless every "
        "rotation is the identity.")
ASSUMPTIONS = ["float64 numpy quaternion/rotation-matrix oracle (vlib/rot.py)",
               "tolerances 1e-10 (float64) / 2e-5 (float32) for polynomial expressions, 1e-6 / 2e-3 where acos is involved"]
TOL = {"f64": 1e-10, "f32": 2e-5}
ATOL = {"f64": 1e-6, "f32": 2e-3}


@st.composite
def pair(draw):
    n = draw(st.integers(1, 5))
    a = [draw(gen.quaternion()) for _ in range(n)]
    b = [draw(gen.quaternion()) for _ in range(n)]
    sg = [draw(st.sampled_from([1.0, -1.0])) for _ in range(2 * n)]
    a = [[s * v for v in q] for s, q in zip(sg[:n], a)]
    b = [[s * v for v in q] for s, q in zip(sg[n:], b)]
    return {"a": a, "b": b, "dt": draw(gen.dtypes()), "t": draw(st.floats(0, 1)),
            "v": [gen.rng(draw(gen.seeds())).randn(3).tolist() for _ in range(n)],
            "scale": draw(st.sampled_from([1.0, 0.5, 3.0, 1e-3, 1e3]))}


def nontrivial(c):
    return bool((rot.q_angle(np.array(c["a"])) > 1e-6).any())


@sub("product", pair(), quick=500, nontrivial=nontrivial)
def _product(c):
    a, b = np.array(c["a"]), np.array(c["b"])
    ta, tb = T(a, c["dt"]), T(b, c["dt"])
    tol = TOL[c["dt"]]
    ref = rot.qmul(a, b)
    close(N(Q.qu_prod_raw(ta, tb)), ref, tol, "qu_prod_raw")
    p = N(Q.qu_prod(ta, tb))
    assert (p[:, 0] >= 0).all(), "qu_prod has a negative real part: %r" % p.tolist()
    close(rot.q2R(p), rot.q2R(a) @ rot.q2R(b), 4 * tol, "R(qu_prod(a,b)) vs R(a)R(b)")
    close(np.abs((p * ref).sum(-1)), np.ones(len(a)), 4 * tol, "qu_prod up to sign")
    close(N(Q.qu_prod_pos_real(ta, tb)), np.abs(ref[:, 0]), tol, "qu_prod_pos_real")
    close(N(Q.qu_prod_axis(ta, tb)), ref[:, 1:], tol, "qu_prod_axis")
    tc = T(np.roll(b, 1, axis=0), c["dt"])
    ref3 = rot.qmul(a, rot.qmul(b, np.roll(b, 1, axis=0)))
    close(N(Q.qu_triple_prod_pos_real(ta, tb, tc)), np.abs(ref3[:, 0]), 4 * tol, "qu_triple_prod_pos_real")
    # associativity and inverse
    l = N(Q.qu_prod_raw(Q.qu_prod_raw(ta, tb), tc))
    r = N(Q.qu_prod_raw(ta, Q.qu_prod_raw(tb, tc)))
    close(l, r, 4 * tol, "associativity")
    e = N(Q.qu_prod_raw(ta, Q.qu_conj(ta)))
    close(e, np.tile([1.0, 0, 0, 0], (len(a), 1)), 4 * tol, "q * conj(q)")
    close(N(Q.qu_conj(Q.qu_prod_raw(ta, tb))), N(Q.qu_prod_raw(Q.qu_conj(tb), Q.qu_conj(ta))), 4 * tol, "conj(ab)")
    return [c["dt"]]


@sub("standardise", pair(), quick=300, nontrivial=nontrivial)
def _std(c):
    a = np.array(c["a"])
    raw = a * c["scale"]
    t = T(raw, c["dt"])
    tol = TOL[c["dt"]]
    s = N(Q.qu_std(t))
    assert (s[:, 0] >= 0).all()
    close(np.abs(s), np.abs(raw), tol * c["scale"], "qu_std magnitude")
    sg = np.where(raw[:, :1] >= 0, 1.0, -1.0)
    close(s, raw * sg, tol * c["scale"], "qu_std")
    close(N(Q.qu_norm(t)), a, tol, "qu_norm")
    ns = N(Q.qu_norm_std(t))
    close(ns, a * sg, tol, "qu_norm_std")
    std = T(ns, c["dt"])
    close(N(Q.qu_angle(std)), rot.q_angle(a), ATOL[c["dt"]], "qu_angle")
    over = std * (1 + 3e-7 if c["dt"] == "f32" else 1 + 3e-16)  # rounding may push |w| past one
    assert np.isfinite(N(Q.qu_angle(over))).all(), "qu_angle is NaN after rounding"
    return [c["dt"]]


@sub("apply", pair(), quick=500, nontrivial=nontrivial)
def _apply(c):
    a, b, v = np.array(c["a"]), np.array(c["b"]), np.array(c["v"])
    ta, tb, tv = T(a, c["dt"]), T(b, c["dt"]), T(v, c["dt"])
    tol = 10 * TOL[c["dt"]]
    out = N(Q.qu_apply(ta, tv))
    close(out, np.einsum("nij,nj->ni", rot.q2R(a), v), tol, "qu_apply vs rotation matrix")
    close(N(Q.qu_apply(-ta, tv)), out, tol, "qu_apply(-q)")
    close(N(Q.qu_apply(Q.qu_prod(ta, tb), tv)), N(Q.qu_apply(ta, Q.qu_apply(tb, tv))), tol, "composition")
    close(N(Q.qu_apply(Q.qu_conj(ta), Q.qu_apply(ta, tv))), v, tol, "inverse")
    close(np.linalg.norm(out, axis=-1), np.linalg.norm(v, axis=-1), tol, "length")
    # linear in the point: the rotation also scales and fixes the origin
    close(N(Q.qu_apply(ta, tv * c["scale"])), out * c["scale"], tol * max(1.0, c["scale"]), "scaling")
    # broadcasting (n,1,4) x (1,n,3) agrees with the element-wise result
    big = N(Q.qu_apply(ta[:, None, :], tv[None, :, :]))
    close(np.stack([big[i, i] for i in range(len(a))]), out, tol, "broadcast")
    close(big, np.einsum("nij,mj->nmi", rot.q2R(a), v), tol, "broadcast outer")
    return [c["dt"]]


@st.composite
def slerps(draw):
    c = draw(pair())
    r = gen.rng(draw(gen.seeds()))
    for i in range(len(c["a"])):  # nearly equal or nearly opposite
        if draw(st.booleans()):
            b = draw(st.sampled_from([1.0, -1.0])) * np.array(c["a"][i]) + 10.0 ** draw(st.floats(-5, -0.5)) * r.randn(4)
            c["b"][i] = (b / np.linalg.norm(b)).tolist()
    return c


@sub("slerp", slerps(), quick=500, nontrivial=nontrivial)
def _slerp(c):
    a, b = np.array(c["a"]), np.array(c["b"])
    t = c["t"]
    th = 2 * np.arctan2(np.linalg.norm(a - b, axis=-1), np.linalg.norm(a + b, axis=-1))
    ok = th < math.pi - 3e-3  # antipodal 4-vectors have no unique geodesic
    if not ok.any():
        return ["antipodal"]
    a, b, th = a[ok], b[ok], th[ok]
    out = N(Q.qu_slerp(T(a, c["dt"]), T(b, c["dt"]), t))
    tol = {"f64": 1e-6, "f32": 5e-3}[c["dt"]]
    assert out.shape == a.shape, "slerp shape %s" % (out.shape,)
    close(np.linalg.norm(out, axis=-1), np.ones(len(a)), tol, "slerp norm")
    # rounding turns the arc between nearly opposite quaternions
    tol = np.maximum(tol, ({"f64": 1e-14, "f32": 1e-5}[c["dt"]] / np.maximum(math.pi - th, 1e-9)))[:, None]
    small = th < 1e-3
    sn = np.where(small, 1.0, np.sin(th))
    w1 = np.where(small, 1 - t, np.sin((1 - t) * th) / sn)
    w2 = np.where(small, t, np.sin(t * th) / sn)
    close(out, w1[:, None] * a + w2[:, None] * b, tol, "slerp on the great arc")
    rev = N(Q.qu_slerp(T(b, c["dt"]), T(a, c["dt"]), 1 - t))
    close(out, rev, tol, "slerp reversal")
    return [c["dt"]]


@st.composite
def s2pairs(draw):
    n = draw(st.integers(1, 5))
    P, F = [], []
    for _ in range(n):
        p = np.array(draw(gen.s2_point()))
        kind = draw(st.sampled_from(["free", "same", "anti", "near", "nearanti"]))
        if kind == "free":
            f = np.array(draw(gen.s2_point()))
        else:
            f = p.copy() if kind in ("same", "near") else -p
            if kind.startswith("near"):
                f = f + 10.0 ** draw(st.floats(-8, -1)) * gen.rng(draw(gen.seeds())).randn(3)
                f /= np.linalg.norm(f)
        P.append(p.tolist())
        F.append(f.tolist())
    return {"p": P, "f": F, "dt": draw(gen.dtypes())}


@sub("rotate_sets", s2pairs(), quick=500)
def _sets(c):
    p, f = np.array(c["p"]), np.array(c["f"])
    q = N(Q.quaternion_rotate_sets_sphere(T(p, c["dt"]), T(f, c["dt"])))
    tol = {"f64": 1e-7, "f32": 3e-3}[c["dt"]]
    assert q.shape == (len(p), 4)
    close(np.linalg.norm(q, axis=-1), np.ones(len(p)), tol, "unit")
    close(rot.qrot(q, p), f, tol, "start rotated onto finish")
    # the rotation is the shortest one
    ang = 2 * np.arctan2(np.linalg.norm(p - f, axis=-1), np.linalg.norm(p + f, axis=-1))
    close(rot.q_angle(q), ang, 5 * tol, "shortest arc")
    return [c["dt"]]


_two = lambda r, n: [batch.haar(r, n), batch.haar(r, n)]
_one = lambda r, n: [batch.haar(r, n) * r.choice([-1, 1], (n, 1))]
batch.add({
    "qu_std": {"fn": Q.qu_std, "make": _one}, "qu_norm": {"fn": Q.qu_norm, "make": lambda r, n: [3 * batch.haar(r, n)]},
    "qu_norm_std": {"fn": Q.qu_norm_std, "make": lambda r, n: [r.randn(n, 4)]}, "qu_conj": {"fn": Q.qu_conj, "make": _one}, "qu_angle": {"fn": Q.qu_angle, "make": _one},
    "qu_prod_raw": {"fn": Q.qu_prod_raw, "make": _two}, "qu_prod": {"fn": Q.qu_prod, "make": _two}, "qu_prod_pos_real": {"fn": Q.qu_prod_pos_real, "make": _two},
    "qu_prod_axis": {"fn": Q.qu_prod_axis, "make": _two}, "qu_triple_prod_pos_real": {"fn": Q.qu_triple_prod_pos_real, "make": lambda r, n: _two(r, n) + [batch.haar(r, n)]},
    "qu_slerp": {"fn": Q.qu_slerp, "make": _two, "opts": [0.0, 0.3, 0.5, 1.0]}, "qu_apply": {"fn": Q.qu_apply, "make": lambda r, n: [batch.haar(r, n), r.randn(n, 3)]},
}, quick=200)


finish_module(globals())
