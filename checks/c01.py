"""C01 orientation representations: every conversion preserves the rotation."""
import math

import numpy as np
import torch

from vlib import batch, gen, rot
from vlib.harness import finish_module, st, sub

from ebsdtorch.s2_and_so3 import orientations as O

RULE = (
    "A case is a dtype and a list of 1-6 unit quaternions (Haar, exact crystallographic rotations, near-identity, "
    "near/exactly 180 deg about special, generic or near-degenerate axes); it is non-trivial when at least one "
    "rotation differs from the identity by more than 1e-6 rad."
)
ASSUMPTIONS = [
    "float64 oracle for each representation in vlib/rot.py (independent of the code under test)",
    "tolerances: 2e-6 (float64) and 4e-3 (float32) on rotation-matrix entries, from the acos conditioning at 0 and pi",
]

DT = {"f64": torch.float64, "f32": torch.float32}
TOL = {"f64": 2e-6, "f32": 4e-3}
REPS = ["qu", "om", "ax", "ro", "ho", "cu", "bu", "zh"]

PAIRS = [
    "qu2ho", "om2qu", "om2ax", "ax2om", "cu2ho", "ho2cu", "ho2ax", "ax2ho", "ax2ro", "ro2ax", "ax2qu", "qu2ax",
    "qu2ro", "qu2bu", "bu2qu", "qu2om", "zh2om", "om2zh", "zh2qu", "qu2zh", "qu2cu", "om2ho", "ax2cu", "ro2qu",
    "ro2om", "ro2cu", "ro2ho", "cu2ax", "cu2qu", "cu2om", "cu2ro", "ho2qu", "ho2om", "ho2ro", "om2ro", "om2cu",
    "bu2om", "bu2ax", "bu2ro", "bu2cu", "bu2ho", "om2bu", "ax2bu", "ro2bu", "cu2bu", "ho2bu",
]


def nontrivial(case):
    return bool((rot.q_angle(np.array(case["q"])) > 1e-6).any())


def valid(rep, v, tol, signed_ro=False):
    """range / normalisation invariants of each representation"""
    assert np.isfinite(v if rep != "ro" else v[..., :3]).all(), "%s not finite: %r" % (rep, v.tolist())
    if rep == "qu":
        assert np.abs(np.linalg.norm(v, axis=-1) - 1).max() < tol, "quaternion not unit: %r" % v.tolist()
        assert (v[..., 0] >= -tol).all(), "negative real part: %r" % v.tolist()
    elif rep == "om":
        e = np.abs(v @ np.swapaxes(v, -1, -2) - np.eye(3)).max()
        assert e < tol and np.abs(np.linalg.det(v) - 1).max() < tol, "not a rotation matrix: %r" % v.tolist()
    elif rep in ("ax", "ro"):
        assert np.abs(np.linalg.norm(v[..., :3], axis=-1) - 1).max() < tol, "axis not unit: %r" % v.tolist()
        if rep == "ax":
            # -pi and pi are the same rotation (tan(pi/2) is negative after rounding to float32)
            ok = (v[..., 3] >= -tol) | (v[..., 3] <= -math.pi + 1e-3)
            assert ok.all() and (np.abs(v[..., 3]) <= math.pi + tol).all(), "angle range %r" % v.tolist()
        else:
            assert not np.isnan(v[..., 3]).any(), "NaN tan(angle/2)"
            assert signed_ro or ((v[..., 3] >= -tol) | (np.abs(v[..., 3]) > 1e4)).all(), "negative tan %r" % v.tolist()
    elif rep == "ho":
        assert (np.linalg.norm(v, axis=-1) <= rot.HO_MAX + tol).all(), "outside homochoric ball %r" % v.tolist()
    elif rep == "cu":
        assert (np.abs(v) <= rot.CU_HALF + tol).all(), "outside cubochoric cube %r" % v.tolist()
    elif rep == "bu":
        assert (v >= -tol).all() and (v[..., 1] <= math.pi + tol).all(), "Bunge range %r" % v.tolist()
        assert (v[..., 0::2] <= 2 * math.pi + tol).all(), "Bunge range %r" % v.tolist()


def check_pair(name, fn, case):
    a, b = name.split("2")
    q = np.array(case["q"])
    x = rot.enc(a, q)
    if a == "qu" and case.get("neg"):
        x = -x  # q and -q are the same rotation
    t = torch.tensor(x, dtype=DT[case["dt"]])
    out = fn(t.clone())
    tol = TOL[case["dt"]]
    assert out.dtype == t.dtype, "dtype changed to %s" % out.dtype
    v = out.double().numpy()
    want_shape = {"om": (3, 3), "zh": (6,), "qu": (4,), "ax": (4,), "ro": (4,)}.get(b, (3,))
    assert v.shape == (len(q),) + want_shape, "shape %s" % (v.shape,)
    valid(b, v, tol, signed_ro=bool(case.get("neg")))
    ref = rot.q2R(q)
    got = rot.dec(b, v)
    d = rot.rot_dist(got, ref)
    i = int(np.argmax(d))
    assert d.max() < tol, "%s(%r) = %r is a different rotation (max entry error %.3g)" % (
        name, x[i].tolist(), v[i].tolist(), d[i])


CASES = st.fixed_dictionaries({"q": gen.quats(1, 6), "dt": gen.dtypes()})
CASES_QU = st.fixed_dictionaries({"q": gen.quats(1, 6), "dt": gen.dtypes(), "neg": st.booleans()})

for _name in PAIRS:
    def _body(case, _name=_name):
        check_pair(_name, getattr(O, _name), case)
        return [case["dt"]]
    sub(_name, CASES_QU if _name.startswith("qu2") else CASES, quick=120, nontrivial=nontrivial)(_body)


def _variant(label, fn, tol64):
    def body(case):
        case = dict(case)
        check_pair("ho2ax", fn, case)
        if case["dt"] == "f64":  # these advertise (near) machine precision in double precision
            q = np.array(case["q"])
            v = fn(torch.tensor(rot.enc("ho", q), dtype=torch.float64)).numpy()
            d = rot.rot_dist(rot.dec("ax", v), rot.q2R(q)).max()
            assert d < tol64, "error %.3g" % d
        return [case["dt"]]
    sub(label, CASES, quick=120, nontrivial=nontrivial)(body)


_variant("ho2ax_exact", lambda h: O.ho2ax(h, fast=False), 2e-7)
_variant("ho2ax_newton", lambda h: O.ho2ax_newton(h), 2e-7)
_variant("ho2ax_reference_kikuchipy", lambda h: O.ho2ax_reference(h), 2e-6)
_variant("ho2ax_reference_emsoft", lambda h: O.ho2ax_reference(h, "EMsoft"), 2e-6)


def _clifford(case):
    q = np.array(case["q"])
    if case["neg"]:
        q = -q
    t = torch.tensor(q, dtype=DT[case["dt"]])
    v = O.qu2cl(t).double().numpy()
    assert v.shape == (len(q), 6)
    num = q[:, [1, 3, 2, 1, 3, 2]]
    den = q[:, [0, 2, 0, 3, 0, 1]]
    ok = (np.abs(num) > 1e-6) & (np.abs(den) > 1e-6)
    with np.errstate(divide="ignore", invalid="ignore"):
        ref = np.arctan(num / den)
    assert (np.abs(v - ref)[ok] < {"f64": 1e-9, "f32": 1e-4}[case["dt"]] ).all(), "clifford angles %r vs %r" % (
        v.tolist(), ref.tolist())
    return [case["dt"]]


sub("qu2cl", CASES_QU, quick=120, nontrivial=nontrivial)(_clifford)


# layout independence: leading batch dimensions, memory layout and the caller's tensor do not matter
ALL = PAIRS + ["ho2ax_newton", "ho2ax_exact", "qu2cl"]


@st.composite
def layouts(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 6, 8, 12]))
    dims = draw(st.sampled_from([d for d in [(n,), (1, n), (n, 1), (2, n // 2), (n // 2, 2), (3, n // 3), (2, 1, n // 2),
                                             (2, 2, n // 4), (1, 1, n)] if int(np.prod(d)) == n]))
    return {"q": draw(gen.quats(n, n)), "dims": list(dims), "layout": draw(st.sampled_from(["plain", "moved", "strided"])),
            "dt": draw(gen.dtypes()), "fn": draw(st.sampled_from(ALL))}


@sub("layout", layouts(), quick=900, thorough=20000, nontrivial=lambda c: len(c["dims"]) > 1 or c["layout"] != "plain")
def _layout(case):
    name = case["fn"]
    fn = (lambda h: O.ho2ax(h, fast=False)) if name == "ho2ax_exact" else getattr(O, name)
    x = torch.tensor(rot.enc(name.split("2")[0], np.array(case["q"])), dtype=DT[case["dt"]])
    ref = fn(x.clone())
    item = x.shape[1:]
    y = x.reshape(*case["dims"], *item)
    if case["layout"] == "moved":
        y = y.movedim(-1, 0).contiguous().movedim(0, -1)
    elif case["layout"] == "strided":
        y = torch.stack([y, torch.full_like(y, 0.1)], dim=-1)[..., 0]
    keep = y.clone()
    out = fn(y)
    assert torch.equal(y, keep), "%s modified its argument" % name
    assert tuple(out.shape) == tuple(case["dims"]) + tuple(ref.shape[1:]), "%s shape %s for batch %s" % (
        name, tuple(out.shape), case["dims"])
    a, b = out.reshape(ref.shape).double().numpy(), ref.double().numpy()
    same = (np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= TOL[case["dt"]]) | (
        (np.abs(b) > 1 / TOL[case["dt"]] ** 0.5) & (np.abs(a) > 1 / TOL[case["dt"]] ** 0.5))
    if name.endswith("2bu"):
        same |= np.abs(np.abs(a - b) - 2 * math.pi) <= TOL[case["dt"]]
    # rounding may turn the axis of a rotation by 180 degrees around
    half = np.abs(np.array(case["q"])[:, 0]) < 1e-5
    rep = name.split("2")[1].split("_")[0]
    if half.any() and rep in REPS:
        near = np.array([bool(np.all(rot.rot_dist(rot.dec(rep, a[i:i + 1]), rot.dec(rep, b[i:i + 1])) < TOL[case["dt"]])) for i in range(len(a))])
        same |= (half & near).reshape((-1,) + (1,) * (a.ndim - 1))
    assert same.all(), "%s of batch shape %s / %s memory: %r, item by item %r" % (
        name, case["dims"], case["layout"], a.tolist(), b.tolist())
    return ["%dd" % len(case["dims"]), case["layout"], case["dt"]]


# chains of random conversions: any path through the representations ends in the same rotation
def _out(a):
    return [p for p in PAIRS if p.startswith(a + "2")]


@st.composite
def chains(draw):
    rep = draw(st.sampled_from(REPS))
    case = {"start": rep, "path": [], "q": draw(gen.quats(1, 4)), "dt": draw(gen.dtypes())}
    for _ in range(draw(st.integers(2, 6))):
        p = draw(st.sampled_from(_out(rep)))
        case["path"].append(p)
        rep = p.split("2")[1]
    return case


@sub("chain", chains(), quick=700, thorough=20000, nontrivial=nontrivial)
def _chain(case):
    q = np.array(case["q"])
    x = torch.tensor(rot.enc(case["start"], q), dtype=DT[case["dt"]])
    for p in case["path"]:
        x = getattr(O, p)(x)
    rep = case["path"][-1].split("2")[1]
    v = x.double().numpy()
    tol = len(case["path"]) * {"f64": 3e-6, "f32": 8e-3}[case["dt"]]
    valid(rep, v, tol)
    d = rot.rot_dist(rot.dec(rep, v), rot.q2R(q)).max()
    assert d < tol, "%s via %s: error %.3g" % (case["start"], case["path"], d)
    return ["len%d" % len(case["path"])]

def _rep_table():
    t = {}
    for name in PAIRS + ["ho2ax_newton", "ho2ax_reference"]:
        f = getattr(O, name, None)
        if f is not None:
            t[name] = {"fn": f, "make": lambda r, n, a=name[:2]: [rot.enc(a, batch.haar(r, n))]}
    return t


# one batch, however large and however laid out, is converted item by item
batch.add(_rep_table(), quick=400)


finish_module(globals())
