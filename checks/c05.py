"""C05 disorientation and symmetry-reduced angles."""
import math

import numpy as np
import torch

from vlib import batch, gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import LAUE, N, T, close

from ebsdtorch.s2_and_so3 import laue_fz_misori as M
from ebsdtorch.s2_and_so3 import laue_fz_ori as F
from ebsdtorch.s2_and_so3 import quaternions as Q

RULE = ("A case is two Laue ids (equal or different) and 1-4 pairs of orientations, some of them symmetrically "
        "equivalent or nearly so; non-trivial when at least one group is not trivial.")
ASSUMPTIONS = ["brute-force oracle over all operator pairs in float64 numpy",
               "angle tolerances 1e-6 rad (float64) / 3e-3 rad (float32): acos conditioning at zero angle"]
ATOL = {"f64": 1e-6, "f32": 3e-3}
MAX_ANGLE = {1: 180.0, 2: 180.0, 3: 120.0, 4: 180.0, 5: 98.43, 6: 180.0, 7: 104.48, 8: 180.0, 9: 93.85, 10: 90.0,
             11: 62.80}


def oracle(q1, q2, k1, k2):
    m = rot.qmul(q1, rot.qconj(q2))
    e = rot.qmul(LAUE[k1][None, :, None], rot.qmul(m[:, None, None], LAUE[k2][None, None, :]))
    e = e.reshape(len(m), -1, 4)
    return rot.q_angle(e).min(axis=1), e


@st.composite
def cases(draw):
    k1 = draw(st.integers(1, 11))
    k2 = k1 if draw(st.booleans()) else draw(st.integers(1, 11))
    a, b = [], []
    for _ in range(draw(st.integers(1, 4))):
        q1 = np.array(draw(gen.quaternion()))
        kind = draw(st.integers(0, 2))
        if kind == 0:
            q2 = np.array(draw(gen.quaternion()))
        else:
            q2 = rot.qmul(LAUE[k1][draw(st.integers(0, 23)) % len(LAUE[k1])], q1)
            if kind == 2:
                q2 = rot.qmul(np.array(draw(gen.quaternion(kinds=["nearid"]))), q2)
        a.append(rot.qpos(q1).tolist())
        b.append(rot.qpos(rot.nrm(q2)).tolist())
    return {"k1": k1, "k2": k2, "a": a, "b": b, "dt": draw(gen.dtypes()), "i": draw(st.integers(0, 23)),
            "j": draw(st.integers(0, 23)), "r": draw(gen.quaternion())}


def nontrivial(c):
    return c["k1"] > 1 or c["k2"] > 1


@sub("angle", cases(), quick=500, nontrivial=nontrivial)
def _angle(c):
    k1, k2 = c["k1"], c["k2"]
    a, b = np.array(c["a"]), np.array(c["b"])
    ta, tb = T(a, c["dt"]), T(b, c["dt"])
    tol = ATOL[c["dt"]]
    ref, orbit = oracle(a, b, k1, k2)
    for mod in (F, M):
        got = N(mod.disori_angle_laue(ta, tb, k1, k2))
        close(got, ref, tol, "%s.disori_angle_laue" % mod.__name__.split(".")[-1])
    qs = [F.disorientation(ta, tb, k1, k2), M.disorientation_naive(ta, tb, k1, k2),
          M.misori_to_fz_laue(Q.qu_prod(ta, Q.qu_conj(tb)), k1, k2)]
    for name, q in zip(["disorientation", "disorientation_naive", "misori_to_fz_laue"], qs):
        q = N(q)
        assert q.shape == a.shape
        close(rot.q_angle(q), ref, tol, name + " angle")
        m = np.abs((orbit * q[:, None]).sum(-1)).max(axis=1)
        close(m, np.ones(len(a)), {"f64": 1e-9, "f32": 1e-5}[c["dt"]], name + " belongs to the equivalence class")
        assert (q[:, 0] >= -1e-6).all()
    if k1 == k2:
        assert (np.degrees(ref) <= MAX_ANGLE[k1] + 0.02).all()
        got = N(F.disori_angle_laue(ta, tb, k1, k1))
        assert (np.degrees(got) <= MAX_ANGLE[k1] + 0.3).all(), "above the maximum disorientation angle"
    return ["same" if k1 == k2 else "mixed"]


@sub("invariance", cases(), quick=400, nontrivial=nontrivial)
def _inv(c):
    k1, k2 = c["k1"], c["k2"]
    a, b, r = np.array(c["a"]), np.array(c["b"]), np.array(c["r"])
    tol = 2 * ATOL[c["dt"]]
    f = lambda x, y, i, j: N(F.disori_angle_laue(T(x, c["dt"]), T(y, c["dt"]), i, j))
    base = f(a, b, k1, k2)
    s1 = LAUE[k1][c["i"] % len(LAUE[k1])]
    s2 = LAUE[k2][c["j"] % len(LAUE[k2])]
    close(f(rot.qmul(s1, a), rot.qmul(s2, b), k1, k2), base, tol, "crystal symmetry of either orientation")
    close(f(rot.qmul(a, r), rot.qmul(b, r), k1, k2), base, tol, "common sample rotation")
    close(f(b, a, k2, k1), base, tol, "exchange")
    close(f(-a, b, k1, k2), base, tol, "q and -q")
    # reduction to the fundamental zone does not move the orientation
    fz = F.ori_to_fz_laue(T(a, c["dt"]), k1)
    z = N(F.disori_angle_laue(fz, T(a, c["dt"]), k1, k1))
    close(z, np.zeros(len(a)), tol, "disorientation of an orientation and its fundamental-zone representative")
    if k1 == k2 and len(a) >= 2:
        d01, d12, d02 = f(a[:1], a[1:2], k1, k1), f(a[1:2], b[:1], k1, k1), f(a[:1], b[:1], k1, k1)
        assert d02[0] <= d01[0] + d12[0] + 3 * tol, "triangle inequality"
    return ["same" if k1 == k2 else "mixed"]


@sub("orientation_angle", cases(), quick=400, nontrivial=nontrivial)
def _oangle(c):
    k = c["k1"]
    a, b = np.array(c["a"]), np.array(c["b"])
    tol = ATOL[c["dt"]]
    m = rot.qmul(a, rot.qconj(b))
    ref = rot.q_angle(rot.qmul(LAUE[k][None], m[:, None])).min(axis=1)
    got = N(F.ori_angle_laue(T(a, c["dt"]), T(b, c["dt"]), k))
    close(got, ref, tol, "ori_angle_laue")
    s = LAUE[k][c["i"] % len(LAUE[k])]
    close(N(F.ori_angle_laue(T(rot.qmul(s, a), c["dt"]), T(b, c["dt"]), k)), got, 2 * tol, "crystal symmetry")
    close(N(F.ori_angle_laue(T(a, c["dt"]), T(a, c["dt"]), k)), np.zeros(len(a)), tol, "zero for itself")
    return ["laue%d" % k]


_two = lambda r, n: [batch.haar(r, n), batch.haar(r, n)]
_pairs = [[a, b] for a in range(1, 12) for b in range(1, 12)]
batch.add({
    "ori_angle_laue": {"fn": F.ori_angle_laue, "make": _two, "opts": list(range(1, 12)), "cap": 66000},
    "disorientation": {"fn": F.disorientation, "make": _two, "opts": _pairs, "cap": 4099},
    "disori_angle_laue": {"fn": F.disori_angle_laue, "make": _two, "opts": _pairs, "cap": 4099},
    "misori.disori_angle_laue": {"fn": M.disori_angle_laue, "make": _two, "opts": _pairs, "cap": 4099},
    "disorientation_naive": {"fn": M.disorientation_naive, "make": _two, "opts": _pairs, "cap": 4099},
    "misori_to_fz_laue": {"fn": M.misori_to_fz_laue, "make": lambda r, n: [batch.haar(r, n)], "opts": _pairs, "cap": 4099},
}, quick=150)


finish_module(globals())
