"""C08 equal-area Lambert maps and spherical coordinates."""
import math

import numpy as np
import torch

from vlib import batch, gen
from vlib.harness import finish_module, st, sub
from vlib.tu import N, T, close

from ebsdtorch.crystallography import kvectors as K
from ebsdtorch.s2_and_so3 import sphere as SP
from ebsdtorch.utils import rosca_lambert as RL

RULE = ("A case is 1-8 points of the square / hexagon / sphere, drawn at random and on the axes, diagonals, edges, "
        "corners and centre; non-trivial when at least one point is not the centre.")
ASSUMPTIONS = ["formulas re-derived from Rosca (2010) and evaluated in float64 NumPy; Jacobians by central differences"]
TOL = {"f64": 1e-9, "f32": 2e-5}


@st.composite
def square(draw, hex=False):
    kind = draw(st.integers(0, 4))
    if kind == 0:
        p = [draw(st.floats(-1, 1)), draw(st.floats(-1, 1))]
    elif kind == 1:
        v = [-1.0, -0.5, -0.0, 0.0, 0.25, 0.5, 1.0]
        p = [draw(st.sampled_from(v)), draw(st.sampled_from(v))]
    elif kind == 2:
        a = draw(st.floats(-1, 1))
        p = [a, draw(st.sampled_from([a, -a]))]
    elif kind == 3:
        p = [draw(st.floats(-1, 1)), draw(st.sampled_from([-1.0, 0.0, 1.0]))]
        if draw(st.booleans()):
            p = p[::-1]
    else:
        s = 10.0 ** draw(st.floats(-8, -1))
        p = [s * draw(st.floats(-1, 1)), s * draw(st.floats(-1, 1))]
    if hex:  # circumradius 1, a corner on the first axis
        r = hexnorm(p)
        if r > 1:
            p = [p[0] / r, p[1] / r]
        if abs(p[0]) < 1e-300:
            p[0] = 0.0
    return [float(p[0]), float(p[1])]


def hexnorm(p):
    x, y = abs(p[0]), abs(p[1])
    return max(y, x * math.sqrt(3) / 2 + y / 2) * 2 / math.sqrt(3)


def ref_square(p):
    p = np.asarray(p, float)
    a, b = p[..., 0], p[..., 1]
    sw = np.abs(b) > np.abs(a)
    A, B = np.where(sw, b, a), np.where(sw, a, b)
    z = 1 - A**2
    r = np.sqrt(np.maximum(0, 1 - z**2)) * np.where(A < 0, -1, 1)
    t = np.where(A == 0, 0.0, B / np.where(A == 0, 1, A)) * math.pi / 4
    X, Y = r * np.cos(t), r * np.sin(t)
    return np.stack([np.where(sw, Y, X), np.where(sw, X, Y), z], -1)


def ref_hex(p):
    p = np.asarray(p, float)
    out = []
    for x, y in p.reshape(-1, 2):
        rho = hexnorm((x, y))
        if rho == 0:
            out.append([0, 0, 1.0])
            continue
        # sextant whose outer side faces azimuth c; position along the side is mapped linearly to azimuth
        az = math.atan2(y, x)
        c = (math.floor(az / (math.pi / 3)) + 0.5) * math.pi / 3
        u = x * math.cos(c) + y * math.sin(c)
        v = -x * math.sin(c) + y * math.cos(c)
        th = c + (v / u) * math.sqrt(3) * math.pi / 6
        z = 1 - rho**2
        s = math.sqrt(max(0, 1 - z * z))
        out.append([s * math.cos(th), s * math.sin(th), z])
    return np.array(out).reshape(p.shape[:-1] + (3,))


SQUARE = {"inv_rosca_lambert": SP.inv_rosca_lambert, "square_to_hemisphere": RL.square_to_hemisphere,
          "square_to_hemisphere_v2": RL.square_to_hemisphere_v2, "kvectors.square_to_hemisphere": K.square_to_hemisphere}
HEX = {"hexagon_to_hemisphere": RL.hexagon_to_hemisphere, "kvectors.hexagon_to_hemisphere": K.hexagon_to_hemisphere}


def common(fns, pts, dt, ref, dens):
    tol = TOL[dt]
    p = np.array(pts)
    t = T(p, dt)
    r = ref(N(t))
    for name, f in fns.items():
        keep = t.clone()
        o = f(t)
        assert o.dtype == t.dtype
        assert torch.equal(t, keep), name + " modified its input"
        o = N(o)
        close(o, r, 20 * tol if dt == "f32" else 1e-7, name)  # sqrt at the rim amplifies rounding
        close(np.linalg.norm(o, axis=-1), np.ones(len(p)), tol, name + " on the unit sphere")
        assert (o[:, 2] >= -tol).all(), name + " leaves the Northern hemisphere"
        n2 = N(f(T(np.stack([p, p]), dt)))
        close(n2, np.stack([o, o]), 1e-12, name + " batch shape")
        nc = T(np.stack([p, p[::-1]], axis=-1), dt)[..., 0]
        close(N(f(nc)), o, 1e-12, name + " non-contiguous")
        # equal area, away from the centre and the creases
        h = 1e-5
        P = np.clip(p, -0.9, 0.9)
        e = np.array([[h, 0], [0, h]])
        g = [(ref(P + e[i]) - ref(P - e[i])) / (2 * h) for i in range(2)]
        go = [(N(f(T(P + e[i]))) - N(f(T(P - e[i])))) / (2 * h) for i in range(2)]
        ja = np.linalg.norm(np.cross(g[0], g[1]), axis=-1)
        jo = np.linalg.norm(np.cross(go[0], go[1]), axis=-1)
        ok = np.abs(ja - dens) < 1e-4
        close(jo[ok], np.full(ok.sum(), dens), 1e-3, name + " is not equal-area")


@sub("square", st.fixed_dictionaries({"p": st.lists(square(), min_size=1, max_size=8), "dt": gen.dtypes()}), quick=500,
     nontrivial=lambda c: any(any(x) for x in c["p"]))
def _square(c):
    common(SQUARE, c["p"], c["dt"], ref_square, math.pi / 2)
    t = T(c["p"], c["dt"])
    for name, f in SQUARE.items():
        back = N(SP.rosca_lambert(f(t)))
        p = N(t)
        tol = 1e-6 if c["dt"] == "f64" else 2e-3
        close(back, p, tol, "rosca_lambert(%s)" % name)
    return [c["dt"]]


@sub("hexagon", st.fixed_dictionaries({"p": st.lists(square(hex=True), min_size=1, max_size=8), "dt": gen.dtypes()}),
     quick=400, nontrivial=lambda c: any(any(x) for x in c["p"]))
def _hex(c):
    common(HEX, c["p"], c["dt"], ref_hex, 2 * math.pi / (1.5 * math.sqrt(3)))
    for f in HEX.values():  # six-fold symmetry
        a = math.pi / 3
        R2 = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
        p = np.array(c["p"])
        o = N(f(T(p)))
        o[:, :2] = o[:, :2] @ R2.T
        close(N(f(T(p @ R2.T))), o, 1e-6, "six-fold symmetry")
    return [c["dt"]]


@sub("sphere", st.fixed_dictionaries({"v": gen.s2_points(), "dt": gen.dtypes(), "ulp": st.integers(-3, 3)}), quick=700)
def _sphere(c):
    v, dt = np.array(c["v"]), c["dt"]
    # a vector of unit length up to rounding: a length some ulp above one makes |z| > 1 at the poles
    t = T(v * (1 + c["ulp"] * torch.finfo(T([0], dt).dtype).eps), dt)
    keep = t.clone()
    o = N(SP.rosca_lambert(t))
    tol = 1e-7 if dt == "f64" else 2e-3
    assert o.shape == (len(v), 2) and (np.abs(o) <= 1 + tol).all(), "outside the square"
    up = v * np.where(v[:, 2:] < 0, [[1.0, 1, -1]], [[1.0, 1, 1]])
    close(ref_square(np.clip(o, -1, 1)), up, tol, "rosca_lambert is not the inverse map")
    close(N(SP.inv_rosca_lambert(T(o, dt))), up, 2 * tol, "round trip through the square")
    s = N(SP.rosca_lambert_side_by_side(t))
    south = N(t)[:, 2] < 0
    e = np.stack([o[:, 0] / 2 + np.where(south, 0.5, -0.5), o[:, 1]], -1)
    close(s, e, 1e-6, "side by side")
    assert torch.equal(t, keep), "input modified"
    tp = N(SP.xyz_to_theta_phi(t))
    r = np.hypot(v[:, 0], v[:, 1])
    close(tp[:, 0], np.arctan2(r, v[:, 2]), TOL[dt], "polar angle")
    d = (tp[:, 1] - np.arctan2(v[:, 1], v[:, 0]) + math.pi) % (2 * math.pi) - math.pi
    close(d * r, np.zeros(len(v)), TOL[dt], "azimuth")
    back = N(SP.theta_phi_to_xyz(T(tp[:, 0], dt), T(tp[:, 1], dt)))
    close(back, v, TOL[dt], "theta/phi round trip")
    close(N(SP.theta_phi_to_xyz(T(tp[:, 0], dt).reshape(1, -1, 1), T(tp[:, 1], dt).reshape(1, -1, 1)))[0, :, 0], back,
          1e-6, "theta/phi batch shape")
    assert np.allclose(N(SP.rosca_lambert(t.reshape(1, -1, 3)))[0], o)
    return [dt]


_sq = lambda r, n: [r.uniform(-1, 1, (n, 2))]
batch.add({
    "rosca_lambert": {"fn": SP.rosca_lambert, "make": lambda r, n: [np.abs(batch.dirs(r, n))]}, "inv_rosca_lambert": {"fn": SP.inv_rosca_lambert, "make": _sq},
    "rosca_lambert_side_by_side": {"fn": SP.rosca_lambert_side_by_side, "make": lambda r, n: [batch.dirs(r, n)]},
    "square_to_hemisphere": {"fn": RL.square_to_hemisphere, "make": _sq}, "square_to_hemisphere_v2": {"fn": RL.square_to_hemisphere_v2, "make": _sq},
    "hexagon_to_hemisphere": {"fn": RL.hexagon_to_hemisphere, "make": lambda r, n: [r.uniform(-0.5, 0.5, (n, 2))]},
    "theta_phi_to_xyz": {"fn": SP.theta_phi_to_xyz, "make": lambda r, n: [r.uniform(0, 3, n), r.uniform(-3, 3, n)]},
    "xyz_to_theta_phi": {"fn": SP.xyz_to_theta_phi, "make": lambda r, n: [batch.dirs(r, n)]},
}, quick=200)


finish_module(globals())
