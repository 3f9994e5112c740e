"""C04 reduction to the orientation fundamental zone."""
import math

import numpy as np
import torch

from vlib import batch, gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import LAUE, LAUE_ORDER, N, T, close, fz_cos

from ebsdtorch.s2_and_so3 import laue_fz_ori as F

RULE = ("A case is a Laue id and 1-6 orientations (Haar, exact special rotations, near-identity, near/at 180 deg, "
        "boundary constructions midway between two operators); non-trivial when some orientation starts outside the zone.")
ASSUMPTIONS = ["zone membership oracle: |Re(s q)| is maximal for the identity operator (vlib/tu.py groups)",
               "orientations within 1e-6 of a zone face may be classified either way"]
TOL = {"f64": 1e-9, "f32": 2e-5}


@st.composite
def cases(draw):
    k = draw(st.integers(1, 11))
    qs = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.integers(0, 3))
        if kind < 3:
            q = np.array(draw(gen.quaternion()))
        else:  # on a zone face: the midpoint of identity and an operator, turned about its own axis' perpendicular
            s = LAUE[k][draw(st.integers(0, len(LAUE[k]) - 1))]
            if s[0] < 0:
                s = -s
            m = rot.nrm(s + np.array([1.0, 0, 0, 0])) if s[0] > -0.99 else s
            q = m
        q = rot.qpos(q)
        qs.append(q.tolist())
    return {"laue": k, "q": qs, "dt": draw(gen.dtypes()), "i": draw(st.integers(0, 23))}


def nontrivial(c):
    m = fz_cos(c["q"], c["laue"])
    return bool((m.max(axis=1) > np.abs(np.array(c["q"])[:, 0]) + 1e-9).any())


@sub("reduce", cases(), quick=700, nontrivial=nontrivial)
def _reduce(c):
    k, q = c["laue"], np.array(c["q"])
    tol = TOL[c["dt"]]
    fz = N(F.ori_to_fz_laue(T(q, c["dt"]), k))
    assert fz.shape == q.shape
    close(np.linalg.norm(fz, axis=-1), np.ones(len(q)), tol, "unit")
    assert (fz[:, 0] >= -tol).all(), "negative real part"
    # equivalent under the group, on the crystal side
    M = np.abs((rot.qmul(LAUE[k][None], q[:, None]) * fz[:, None]).sum(-1))
    close(M.max(axis=1), np.ones(len(q)), tol, "reduced orientation is symmetrically equivalent to the input")
    # inside the zone
    best = fz_cos(q, k).max(axis=1)
    close(fz[:, 0], best, tol, "real part is maximal over the orbit")
    # constant on the orbit (as a zone representative: same maximal real part; same orientation when interior)
    s = LAUE[k][c["i"] % len(LAUE[k])]
    q2 = rot.qmul(s, q)
    fz2 = N(F.ori_to_fz_laue(T(q2, c["dt"]), k))
    srt = np.sort(fz_cos(q, k), axis=1)
    interior = (srt[:, -1] - (srt[:, -2] if srt.shape[1] > 1 else 0)) > 1e-4
    # a zone representative away from w = 0 is unique
    interior &= best > 1e-3
    d = np.abs((fz * fz2).sum(-1))
    assert (np.abs(d - 1)[interior] < 4 * tol).all(), "equivalent orientations reduce differently"
    again = N(F.ori_to_fz_laue(T(fz, c["dt"]), k))
    close(np.abs((again * fz).sum(-1))[interior], np.ones(int(interior.sum())), 4 * tol, "idempotent")
    return ["laue%d" % k]


@sub("membership", cases(), quick=700)
def _member(c):
    k, q = c["laue"], np.array(c["q"])
    t = T(q, c["dt"])
    m = fz_cos(q, k)
    gap = q[:, 0] - (m[:, 1:].max(axis=1) if m.shape[1] > 1 else -1.0)
    tolm = {"f64": 1e-7, "f32": 1e-4}[c["dt"]]
    clear = np.abs(gap) > tolm
    want = gap > 0
    a = F.ori_in_fz_laue(t, k).numpy()
    b = F.ori_in_fz_laue_brute(t, k).numpy()
    assert a.shape == (len(q),) and a.dtype == bool and b.dtype == bool
    assert (a == want)[clear].all(), "ori_in_fz_laue(%r) = %r, expected %r" % (q.tolist(), a.tolist(), want.tolist())
    assert (b == want)[clear].all(), "ori_in_fz_laue_brute(%r) = %r, expected %r" % (
        q.tolist(), b.tolist(), want.tolist())
    # orientations moved to the zone are reported inside (up to rounding: pull them 1e-4 towards the identity)
    fz = rot.qpos(N(F.ori_to_fz_laue(t, k)))
    ax = rot.q2ax(fz)
    ax[:, 3] *= 1 - (1e-6 if c["dt"] == "f64" else 1e-3)
    q3 = np.concatenate([np.cos(ax[:, 3:] / 2), np.sin(ax[:, 3:] / 2) * ax[:, :3]], axis=-1)
    assert F.ori_in_fz_laue(T(q3, c["dt"]), k).all(), "reduced orientation not in the zone: %r" % q3.tolist()
    assert F.ori_in_fz_laue_brute(T(q3, c["dt"]), k).all()
    return ["laue%d" % k, "in" if want[clear].any() else "out"]


def reach(n, k):
    """tan(angle / 2) at which the zone of class k ends along each direction n (N, 3); inf without a face"""
    S = np.concatenate([LAUE[k], -LAUE[k]])
    S = S[np.abs(S[:, 0]) < 1 - 1e-9]
    d = n @ S[:, 1:].T
    with np.errstate(divide="ignore"):
        return np.where(d > 1e-12, (1 + S[:, 0]) / d, np.inf).min(axis=1) if len(S) else np.full(len(n), np.inf)


@sub("faces", st.fixed_dictionaries({
    "laue": st.integers(1, 11), "seed": gen.seeds(), "dt": gen.dtypes(), "kind": st.sampled_from(["any", "equator", "edge", "corner"]),
    "delta": st.floats(-5, -1).map(lambda v: 10.0 ** v)}), quick=250, thorough=8000, nontrivial=lambda c: c["laue"] > 1)
def _faces(c):
    """200 directions: inside just below the nearest zone face, outside just above it"""
    k, r, d = c["laue"], gen.rng(c["seed"]), c["delta"]
    n = r.randn(200, 3)
    if c["kind"] == "equator":
        n[:, 2] *= 10.0 ** r.uniform(-6, 0)
    elif len(LAUE[k]) > 1 and c["kind"] != "any":
        # directions where two or three faces come close: sums of operator axes
        ax = LAUE[k][1:, 1:] / np.linalg.norm(LAUE[k][1:, 1:], axis=1, keepdims=True)
        m = 2 if c["kind"] == "edge" else 3
        n = (ax[r.randint(len(ax), size=(200, m))] * r.choice([-1, 1], (200, m, 1))).sum(1) + r.randn(200, 3) * 10.0 ** r.uniform(-3, -0.5)
    n /= np.linalg.norm(n, axis=1, keepdims=True)
    t = reach(n, k)
    for f, want in ((1 - d, True), (1 + d, False)):
        u = np.where(np.isfinite(t), t * f, r.uniform(0, 50, 200))
        q = rot.nrm(np.concatenate([np.ones((200, 1)), u[:, None] * n], -1))
        sure = (np.abs(u - t) / (1 + t * t) > (1e-7 if c["dt"] == "f64" else 1e-5)) & (u < 1e5)
        sure &= d > (1e-7 if c["dt"] == "f64" else 2e-5)
        w = want | ~np.isfinite(t)
        for f2 in (F.ori_in_fz_laue, F.ori_in_fz_laue_brute):
            got = f2(T(q, c["dt"]), k).numpy()
            bad = (got != w) & sure
            assert not bad.any(), "class %d %r: %r" % (k, q[bad][0].tolist(), bool(got[bad][0]))
    return ["laue%d" % k, c["kind"]]


@st.composite
def sample_case(draw):
    return {"laue": draw(st.integers(1, 11)), "n": draw(st.integers(1, 3000)), "permute": draw(st.booleans()),
            "deg": draw(st.floats(6.0, 30.0)), "mode": draw(st.sampled_from(["count", "angle"]))}


@sub("sample", sample_case(), quick=60, thorough=1000)
def _sample(c):
    dev = torch.device("cpu")
    k = c["laue"]
    if c["mode"] == "count":
        s = F.sample_ori_fz_laue(k, c["n"], dev, c["permute"])
    else:
        s = F.sample_ori_fz_laue_angle(k, c["deg"], dev, c["permute"])
    v = N(s)
    assert v.ndim == 2 and v.shape[1] == 4
    if len(v) == 0:
        assert c["mode"] == "count" and c["n"] < 20, "no samples"
        return ["empty"]
    close(np.linalg.norm(v, axis=-1), np.ones(len(v)), 1e-3, "unit samples")
    m = fz_cos(v, k)
    assert (v[:, 0] >= m.max(axis=1) - 1e-3).all(), "sample outside the fundamental zone"
    G = LAUE_ORDER[k]
    if c["mode"] == "count":
        e = int((c["n"] * G) ** (1 / 3))
        if e >= 12:
            ratio = len(v) * G / float(e ** 3)
            assert 0.5 < ratio < 1.8, "sampling density off: %d samples for target %d" % (len(v), c["n"])
    else:
        # every orientation has a sample within a few times the requested resolution
        rs = np.random.RandomState(c["n"])
        probe = rot.qpos(rot.nrm(rs.randn(64, 4)))
        sym = rot.qmul(LAUE[k][None], v[:, None]).reshape(-1, 4)
        d = 2 * np.degrees(np.arccos(np.clip(np.abs(probe @ sym.T).max(axis=1), 0, 1)))
        assert d.max() < 3.0 * c["deg"] + 1, "covering radius %.2f deg for resolution %.2f" % (d.max(), c["deg"])
        assert d.mean() < 1.5 * c["deg"], "mean distance %.2f deg for resolution %.2f" % (d.mean(), c["deg"])
    if len(v) > 1:  # distinct samples
        u = np.unique(np.round(v, 5), axis=0)
        assert len(u) >= 0.98 * len(v), "repeated samples"
    return [c["mode"], "laue%d" % k]


H = math.sqrt(2) - 1


@st.composite
def cube_points(draw):
    pts = []
    for _ in range(draw(st.integers(1, 5))):
        r = gen.rng(draw(gen.seeds()))
        v = r.uniform(-H, H, 3)
        kind = draw(st.integers(0, 3))
        if kind == 1:
            v[draw(st.integers(0, 2))] = 0.0
        elif kind == 2:
            v[draw(st.integers(0, 2))] = H * draw(st.sampled_from([1.0, -1.0]))
        elif kind == 3:
            v = np.abs(v).max() * np.sign(v) * np.array([draw(st.sampled_from([0.0, 0.5, 1.0])) for _ in range(3)])
        pts.append(v.tolist())
    return {"p": pts, "dt": draw(gen.dtypes())}


@sub("cube_rfz", cube_points(), quick=400)
def _cube(c):
    p = np.array(c["p"])
    tol = {"f64": 1e-10, "f32": 1e-5}[c["dt"]]
    t = T(p, c["dt"])
    r = N(F.cube_to_rfz(t, 11))
    assert r.shape == p.shape and np.isfinite(r).all(), r.tolist()
    assert (np.abs(r).max(axis=-1) <= H + tol).all() and (np.abs(r).sum(axis=-1) <= 1 + tol).all(), (
        "cube_to_rfz left the cubic fundamental zone: %r -> %r" % (p.tolist(), r.tolist()))
    close(N(F.rfz_to_cube(T(r, c["dt"]), 11)), p, 10 * tol, "rfz_to_cube(cube_to_rfz(p))")
    # same direction
    cr = np.cross(r, p)
    assert np.abs(cr).max() < 10 * tol, "direction changed"
    # the surface of the cube is the surface of the zone
    on = np.abs(np.abs(p).max(axis=-1) - H) < 1e-12
    surf = np.maximum(np.abs(r).max(axis=-1) / H, np.abs(r).sum(axis=-1))
    close(surf[on], np.ones(int(on.sum())), 10 * tol, "cube face maps to the zone face")
    return [c["dt"]]


batch.add({
    "ori_to_fz_laue": {"fn": F.ori_to_fz_laue, "make": lambda r, n: [batch.haar(r, n)], "opts": list(range(1, 12)), "cap": 66000},
    "ori_in_fz_laue": {"fn": F.ori_in_fz_laue, "make": lambda r, n: [batch.haar(r, n)], "opts": list(range(1, 12))},
    "ori_in_fz_laue_brute": {"fn": F.ori_in_fz_laue_brute, "make": lambda r, n: [batch.haar(r, n)], "opts": list(range(1, 12)), "cap": 66000},
    "ori_equiv_laue": {"fn": F.ori_equiv_laue, "make": lambda r, n: [batch.haar(r, n)], "opts": list(range(1, 12)), "cap": 66000},
}, quick=200)


finish_module(globals())
