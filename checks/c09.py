"""C09 SE(3) exponential and logarithm."""
import math

import numpy as np
import torch

from vlib import batch, gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import N, T, close

from ebsdtorch.lie_algebra import se3 as L

RULE = ("A case is 1-5 twists: rotation vectors of angle 0..pi (0, tiny, series/closed-form thresholds, near and at pi, "
        "generic) with translations of magnitude up to 100; non-trivial when some rotation vector is not zero.")
ASSUMPTIONS = ["oracle: 4x4 matrix exponential by scaling and squaring in float64 with 30 Taylor terms",
               "logarithm near pi compared up to the sign of the axis"]


def expm(A):
    n = max(0, int(math.ceil(math.log2(max(1e-12, np.abs(A).sum(axis=-1).max()))))) + 4
    B = A / 2.0**n
    E = np.eye(A.shape[-1])
    term = np.eye(A.shape[-1])
    for k in range(1, 30):
        term = term @ B / k
        E = E + term
    for _ in range(n):
        E = E @ E
    return E


def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def twist(v):
    A = np.zeros((4, 4))
    A[:3, :3] = hat(v[:3])
    A[:3, 3] = v[3:]
    return A


_THRESH = [1e-4, 1e-3, 1e-2, 0.05]


@st.composite
def vec(draw):
    ax = np.array(gen.unit_axis(draw))
    kind = draw(st.sampled_from(["zero", "tiny", "thresh", "generic", "nearpi", "pi", "generic"]))
    if kind == "zero":
        a = 0.0
    elif kind == "tiny":
        a = 10.0 ** draw(st.floats(-9, -2))
    elif kind == "thresh":
        a = draw(st.sampled_from(_THRESH)) * (1 + draw(st.floats(-0.2, 0.2)))
    elif kind == "nearpi":
        a = math.pi - 10.0 ** draw(st.floats(-9, -0.5))
    elif kind == "pi":
        a = math.pi
    else:
        a = draw(st.floats(0.01, 3.1))
    t = gen.rng(draw(gen.seeds())).randn(3) * 10.0 ** draw(st.integers(-2, 2))
    return [float(x) + 0.0 for x in np.concatenate([ax * a, t])]


def cases():
    return st.fixed_dictionaries({"v": st.lists(vec(), min_size=1, max_size=5), "dt": gen.dtypes(),
                                  "shape": st.integers(0, 2)})


def nontrivial(c):
    return any(any(v[:3]) for v in c["v"])


def shaped(c, x):
    t = T(x, c["dt"])
    return [t, t.reshape((1, len(c["v"]), 1) + t.shape[1:]), t.flip(0).flip(0)][c["shape"]]


def flat(c, t, tail):
    want = tuple([(len(c["v"]),), (1, len(c["v"]), 1), (len(c["v"]),)][c["shape"]]) + tail
    assert tuple(t.shape) == want, "shape %s, expected %s" % (tuple(t.shape), want)
    return N(t).reshape((len(c["v"]),) + tail)


@sub("exp", cases(), quick=400, nontrivial=nontrivial)
def _exp(c):
    v = np.array(c["v"])
    t = shaped(c, v)
    v = N(t).reshape(-1, 6)
    keep = t.clone()
    tol = {"f64": 1e-9, "f32": 2e-5}[c["dt"]]
    mag = 1 + np.linalg.norm(v[:, 3:], axis=1)[:, None]
    ref = np.array([expm(twist(x)) for x in v])
    R, tv = ref[:, :3, :3], ref[:, :3, 3]
    ttol = {"f64": 1e-8, "f32": 3e-4}[c["dt"]]
    M = flat(c, L.se3_exp_map_om(t), (4, 4))
    close(M[:, :3, :3], R, tol, "se3_exp_map_om rotation")
    close(M[:, :3, 3] / mag, tv / mag, ttol, "se3_exp_map_om translation")
    close(M[:, 3], np.tile([0, 0, 0, 1.0], (len(v), 1)), 0.0, "last row")
    R2, t2 = L.se3_exp_map_split(t)
    close(flat(c, R2, (3, 3)), M[:, :3, :3], tol, "split rotation")
    close(flat(c, t2, (3,)) / mag, tv / mag, ttol, "split translation")
    q, t3 = L.se3_exp_map_quat(t)
    qf = flat(c, q, (4,))
    close(np.linalg.norm(qf, axis=1), np.ones(len(v)), tol, "unit quaternion")
    close(rot.q2R(qf), R, {"f64": 1e-8, "f32": 2e-5}[c["dt"]], "se3_exp_map_quat rotation")
    close(flat(c, t3, (3,)) / mag, tv / mag, ttol, "quaternion-map translation")
    w = t[..., :3]
    close(flat(c, L.w_exp(w), (3, 3)), R, tol, "w_exp")
    V = np.array([expm(np.block([[hat(x[:3]), np.eye(3)], [np.zeros((3, 3)), np.zeros((3, 3))]]))[:3, 3:] for x in v])
    E, V1 = L.w_exp_vmat(w)
    close(flat(c, E, (3, 3)), R, tol, "w_exp_vmat rotation")
    close(flat(c, V1, (3, 3)), V, ttol, "w_exp_vmat V")
    close(flat(c, L.w_to_v(w), (3, 3)), V, tol * 2, "w_to_v")
    close(flat(c, L.w_to_v_inv(w), (3, 3)) @ V, np.tile(np.eye(3), (len(v), 1, 1)), tol * 10, "w_to_v_inv")
    close(flat(c, L.skew(w), (3, 3)), np.array([hat(x[:3]) for x in v]), 0.0, "skew")
    assert torch.equal(t, keep), "input modified"
    return [c["dt"]]


@sub("roundtrip", cases(), quick=400, nontrivial=nontrivial)
def _rt(c):
    v = np.array(c["v"])
    t = shaped(c, v)
    v = N(t).reshape(-1, 6)
    a = np.linalg.norm(v[:, :3], axis=1)
    mag = 1 + np.linalg.norm(v[:, 3:], axis=1)[:, None]
    f32 = c["dt"] == "f32"
    M = L.se3_exp_map_om(t)
    R, tv = L.se3_exp_map_split(t)
    q, tq = L.se3_exp_map_quat(t)
    keep = M.clone()
    for name, got in (("se3_log_map_om", L.se3_log_map_om(M)), ("se3_log_map_split", L.se3_log_map_split(R, tv)),
                      ("se3_log_map_quat", L.se3_log_map_quat(q, tq))):
        g = flat(c, got, (6,))
        tol = 3e-6 if f32 else 1e-7
        if name == "se3_log_map_quat":  # acos of the real part (documented loss near zero)
            tol = 2e-3 if f32 else 1e-6
        assert np.isfinite(g).all(), name + " not finite"
        near = a > math.pi - (5e-3 if f32 else 1e-6)
        wtol = 20 * tol if f32 else tol
        close(g[~near, :3], v[~near, :3], wtol, name + " rotation vector")
        close(g[~near, 3:] / mag[~near], v[~near, 3:] / mag[~near], 10 * wtol + (3e-4 if f32 else 1e-8),
              name + " translation")
        # at pi the axis is defined up to sign: judge the rotation and the rigid motion instead
        if near.any():
            e = np.array([expm(twist(x)) for x in g[near]])
            ref = np.array([expm(twist(x)) for x in v[near]])
            close(e[:, :3, :3], ref[:, :3, :3], 50 * tol + (2e-3 if f32 else 0), name + " rotation near 180 degrees")
            close(e[:, :3, 3] / mag[near], ref[:, :3, 3] / mag[near], 50 * tol + (1e-2 if f32 else 0),
                  name + " rigid motion near 180 degrees")
            assert (np.linalg.norm(g[near, :3], axis=1) > 3.1).all(), name + " lost a 180 degree rotation"
        assert (np.linalg.norm(g[:, :3], axis=1) <= math.pi + 1e-5).all()
    assert torch.equal(M, keep), "input modified"
    return ["nearpi"] if (a > 3.14).any() else []


@sub("group", st.fixed_dictionaries({"v": vec(), "p": gen.s2_point(), "s": st.floats(-2, 2), "t": st.floats(-2, 2)}),
     quick=200, nontrivial=lambda c: any(c["v"][:3]))
def _group(c):
    v = T(c["v"])[None]
    E = lambda s: N(L.se3_exp_map_om(s * v))[0]
    close(E(c["s"]) @ E(c["t"]), E(c["s"] + c["t"]), 1e-7 * (1 + np.abs(c["v"][3:]).max()), "one-parameter subgroup")
    close(E(1.0) @ E(-1.0), np.eye(4), 1e-7 * (1 + np.abs(c["v"][3:]).max()), "inverse")
    return []


def _mats(r, n):
    m = np.tile(np.eye(4), (n, 1, 1))
    m[:, :3, :3], m[:, :3, 3] = rot.q2R(batch.haar(r, n)), r.randn(n, 3)
    return [m]


_w = lambda r, n: [batch.dirs(r, n) * r.uniform(0.05, 3.0, (n, 1))]
_six = lambda r, n: [np.concatenate([_w(r, n)[0], r.randn(n, 3)], -1)]
batch.add({
    "skew": {"fn": L.skew, "make": _w}, "w_exp": {"fn": L.w_exp, "make": _w}, "w_exp_vmat": {"fn": L.w_exp_vmat, "make": _w}, "w_to_v": {"fn": L.w_to_v, "make": _w},
    "w_to_v_inv": {"fn": L.w_to_v_inv, "make": _w}, "se3_exp_map_quat": {"fn": L.se3_exp_map_quat, "make": _six}, "se3_exp_map_om": {"fn": L.se3_exp_map_om, "make": _six},
    "se3_exp_map_split": {"fn": L.se3_exp_map_split, "make": _six}, "om_to_w": {"fn": L.om_to_w, "make": lambda r, n: [rot.q2R(batch.haar(r, n))]},
    "se3_log_map_quat": {"fn": L.se3_log_map_quat, "make": lambda r, n: [batch.haar(r, n), r.randn(n, 3)]},
    "se3_log_map_split": {"fn": L.se3_log_map_split, "make": lambda r, n: [rot.q2R(batch.haar(r, n)), r.randn(n, 3)]},
    "se3_log_map_om": {"fn": lambda m: L.se3_log_map_om(m), "make": _mats},
}, quick=200)


finish_module(globals())
