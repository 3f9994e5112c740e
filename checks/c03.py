"""C03 the Laue operator sets are the eleven rotation groups."""
import numpy as np

from vlib import gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import LAUE, LAUE_ORDER, N, T, close

from ebsdtorch.s2_and_so3 import laue_fz_ori as FO
from ebsdtorch.s2_and_so3 import laue_fz_s2 as FS
from ebsdtorch.s2_and_so3 import laue_generators as LG

RULE = ("A case is a Laue id, two operator indices and orientations/directions (special, generic, near-special); "
        "all eleven groups and all operator pairs are sampled; non-trivial when the group is not the trivial one.")
ASSUMPTIONS = ["reference groups are closures of generator rotations (2|z, 2|x, n|z, 3|111) in vlib/tu.py"]


def els(i):
    return N(LG.laue_elements(i))


@sub("group", st.fixed_dictionaries({"laue": st.integers(1, 11), "i": st.integers(0, 23), "j": st.integers(0, 23)}),
     quick=400, thorough=4000, nontrivial=lambda c: c["laue"] > 1)
def _group(c):
    k = c["laue"]
    E = els(k)
    n = LAUE_ORDER[k]
    assert E.shape == (n, 4), "Laue %d has %s operators, expected %d" % (k, E.shape, n)
    assert int(LG.get_laue_mult(k)) == 2 * n, "multiplicity of Laue %d" % k
    close(E[0], np.array([1.0, 0, 0, 0]), 1e-12, "first operator is the identity")
    close(np.linalg.norm(E, axis=-1), np.ones(n), 1e-12, "unit operators")
    D = np.abs(E @ E.T)
    assert (D - np.eye(n) < 1 - 1e-6).all(), "duplicate operators in Laue %d" % k
    close(np.abs(E @ LAUE[k].T).max(axis=1), np.ones(n), 1e-9, "Laue %d operators belong to the group" % k)
    p = rot.qmul(E[c["i"] % n], E[c["j"] % n])
    assert np.abs(np.abs(E @ p).max() - 1) < 1e-9, "Laue %d not closed: %d * %d" % (k, c["i"] % n, c["j"] % n)
    inv = rot.qconj(E[c["i"] % n])
    assert np.abs(np.abs(E @ inv).max() - 1) < 1e-9, "no inverse"
    return ["laue%d" % k]


@sub("orientation_orbit", st.fixed_dictionaries({
    "laue": st.integers(1, 11), "q": gen.quats(1, 4), "dt": gen.dtypes(), "i": st.integers(0, 23)}),
    quick=300, nontrivial=lambda c: c["laue"] > 1)
def _orbit(c):
    k, q = c["laue"], np.array(c["q"])
    n = LAUE_ORDER[k]
    out = N(FO.ori_equiv_laue(T(q, c["dt"]), k))
    tol = {"f64": 1e-9, "f32": 1e-5}[c["dt"]]
    assert out.shape == (len(q), n, 4), out.shape
    assert (out[..., 0] >= -tol).all()
    ref = rot.qmul(LAUE[k][None], q[:, None])  # operators act on the crystal side
    for a, b in zip(out, ref):
        M = np.abs(a @ b.T)
        close(M.max(axis=1), np.ones(n), tol * 4, "orbit member is symmetrically equivalent")
        close(M.max(axis=0), np.ones(n), tol * 4, "orbit covers every equivalent")
    return ["laue%d" % k]


@sub("direction_orbit", st.fixed_dictionaries({
    "laue": st.integers(1, 11), "v": gen.s2_points(1, 4), "dt": gen.dtypes()}),
    quick=300, nontrivial=lambda c: c["laue"] > 1)
def _dorbit(c):
    k, v = c["laue"], np.array(c["v"])
    n = LAUE_ORDER[k]
    out = N(FS.s2_equiv_laue(T(v, c["dt"]), k))
    tol = {"f64": 1e-9, "f32": 1e-5}[c["dt"]]
    assert out.shape == (len(v), 2 * n, 3), out.shape
    rp = rot.qrot(LAUE[k][None], v[:, None])
    ref = np.concatenate([rp, -rp], axis=1)
    for a, b in zip(out, ref):
        d = np.linalg.norm(a[:, None] - b[None], axis=-1)
        assert d.min(axis=1).max() < tol * 4, "not an equivalent direction"
        assert d.min(axis=0).max() < tol * 4, "an equivalent direction is missing"
    return ["laue%d" % k]


finish_module(globals())
