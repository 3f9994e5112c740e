"""C31 complex electron scattering factors."""
import functools
import math

import mpmath as mp
import numpy as np
import torch

from vlib import batch, gen
from vlib.harness import finish_module, st, sub
from vlib.tu import N, T

import ebsdtorch.crystallography.scattering_factors.scattering_factors_Hybrid as H
import ebsdtorch.crystallography.scattering_factors.scattering_factors_LVD_TCB as L
import ebsdtorch.crystallography.scattering_factors.scattering_factors_WK as W

RULE = ("A case is a batch of elements, scattering magnitudes, displacements and voltages (or arguments of the exponential integral); non-trivial when "
        "more than one element or a zero magnitude or displacement is present.")
ASSUMPTIONS = ["magnitudes carry the factor 2 pi (g = 2 pi / d) in the EMsoft convention of the WK and hybrid factors, and none in the ITC convention and in the LVD factors",
               "the first terms of the series that the code uses for small arguments are within 0.2% of the WK fit",
               "single precision is compared for magnitudes above 1/Angstrom only, since the analytic formula cancels below",
               "the code's fit for the exponential integral above 20 is good to 1e-6; it is used there by no other part"]

A_ = W.wk_A_param.double().numpy()
B_ = W.wk_B_param.double().numpy()
V_ = L.fit_LVD.double().numpy()
MOD = {"wk": W, "hybrid": H}


# ---- exponential integrals
def small_ei(x):
    return float(mp.ei(x)) if x != 0 else -math.inf


@sub("expint", st.fixed_dictionaries({"seed": gen.seeds(), "m": st.sampled_from(["wk", "hybrid"]), "dtype": st.sampled_from(["f64", "f64", "f32"]), "shape": st.sampled_from([[7], [3, 4], [1], [2, 1, 5]]),
                                      "kind": st.sampled_from(["log", "edge", "root", "neg"])}), quick=400, thorough=20000)
def _ei(c):
    m, r, dt = MOD[c["m"]], gen.rng(c["seed"]), c["dtype"]
    n = int(np.prod(c["shape"]))
    if c["kind"] == "log":
        x = 10 ** r.uniform(-9, 1.9, n) * r.choice([1, -1], n)
    elif c["kind"] == "edge":
        e = np.array([1.0, 6.0, 10.0, 20.0, -1.0, 3.0, 8.0, 15.0])[r.randint(8, size=n)]
        x = e * (1 + r.choice([0, 1e-7, -1e-7, 1e-3, -1e-3], n))
    elif c["kind"] == "root":
        x = 0.372507410781366634 + r.choice([0, 1, -1], n) * 10 ** r.uniform(-9, -0.6, n)
    else:
        x = -(10 ** r.uniform(-6, 2.2, n))
        x[r.randint(n)] = 0
    t = T(x.reshape(c["shape"]), dt)
    keep = t.clone()
    got = N(m.expi(t)).ravel()
    assert (t == keep).all(), "argument changed"
    for xi, gi in zip(N(t).ravel().tolist(), got.tolist()):
        ref = small_ei(xi)
        if not math.isfinite(ref):
            assert gi == ref, "Ei(%r) = %r" % (xi, gi)
            continue
        eps = {"f64": 2e-14, "f32": 4e-6}[c["dtype"]] + (1e-6 if xi > 20 else 0)
        if c["dtype"] == "f32":
            eps += 2e-7 * abs(xi) * 2
        tiny = {"f64": 1e-300, "f32": 1e-37}[c["dtype"]]
        lim = eps * max(abs(ref), 1.0 if abs(xi - 0.3725) < 0.3 else 0) + tiny
        assert abs(gi - ref) <= lim, "Ei(%r) = %r, not %r" % (xi, gi, ref)
    pos = t[t > 0]
    for xi, gi in zip(N(pos).tolist(), N(m.exp1(pos)).tolist()):
        ref = float(mp.e1(xi))
        assert abs(gi - ref) <= {"f64": 1e-14, "f32": 3e-6}[c["dtype"]] * (1 + abs(xi) / 10) * ref + {"f64": 1e-300, "f32": 1e-37}[c["dtype"]], "E1(%r) = %r, not %r" % (xi, gi, ref)
    return [c["kind"]]


@sub("scaled", st.fixed_dictionaries({"seed": gen.seeds(), "m": st.sampled_from(["wk", "hybrid"]), "dtype": st.sampled_from(["f64", "f32"])}), quick=300, thorough=10000)
def _rih(c):
    """x exp(-x) Ei(x) above 20, and exp(-a) (Ei(b) - Ei(c)) in every combination of sizes"""
    m, r, dt = MOD[c["m"]], gen.rng(c["seed"]), c["dtype"]
    x = T(np.concatenate([20 + r.uniform(0.01, 30, 4), 10 ** r.uniform(1.302, 5, 5), 200 / np.arange(1, 10)]), dt)
    for xi, gi in zip(N(x).tolist(), N(m.RIH2_torch(x)).tolist()):
        ref = float(mp.mpf(xi) * mp.exp(-xi) * mp.ei(xi))
        assert abs(gi - ref) < 1e-4, "x exp(-x) Ei(x) at %r is %r, not %r" % (xi, gi, ref)
    b = 10 ** r.uniform(-3, 3, 12)
    d = 10 ** r.uniform(-3, 3, 12)
    a = np.maximum(b, d) * (1 + r.uniform(0, 1, 12) * 0.2)
    g = N(m.RIH1_torch_where(T(a, dt), T(b, dt), T(d, dt)))
    a, b, d = (N(T(v, dt)) for v in (a, b, d))
    for ai, bi, di, gi in zip(a, b, d, g):
        e1, e2 = (float(mp.exp(-ai) * mp.ei(v)) for v in (bi, di))
        lim = {"f64": 1e-12, "f32": 1e-5 * max(1, ai)}[c["dtype"]] * (abs(e1) + abs(e2) + math.exp(-ai)) + 1e-4 * ((abs(e1) if bi > 20 else 0) + (abs(e2) if di > 20 else 0)) + 1e-37
        assert abs(gi - (e1 - e2)) <= lim, "exp(-%r)(Ei(%r)-Ei(%r)) = %r, not %r" % (ai, bi, di, gi, e1 - e2)
    return ["ok"]


# ---- reference factors
def wk_real(z, s):
    a, b = A_[z - 1], B_[z - 1]
    s2 = np.asarray(s, dtype=np.float64)[..., None] ** 2
    with np.errstate(all="ignore"):
        v = np.where(s2 > 0, -a * np.expm1(-b * s2) / s2, a * b)
    return v.sum(-1), (np.abs(a) * np.minimum(b, 1 / np.maximum(s2, 1e-300))).sum(-1)


def lvd_real(z, s):
    a, b = V_[z - 1, :5], V_[z - 1, 5:]
    q = 4 * np.asarray(s, dtype=np.float64)[..., None] ** 2
    return (a * (2 + b * q) / (1 + b * q) ** 2).sum(-1)


def lvd_size(z, s):
    """the terms of the fit cancel each other"""
    a, b = V_[z - 1, :5], V_[z - 1, 5:]
    q = 4 * np.asarray(s, dtype=np.float64)[..., None] ** 2
    return (np.abs(a) * (2 + b * q) / (1 + b * q) ** 2).sum(-1)


def k0_of(kv):
    return 0.5068 * math.sqrt(1022 * kv + kv * kv)


def core(z, g, kv):
    """core-loss part, Weickenmeier & Kohl 1991 eqs. 24-29, in 30 digits"""
    a0, k0 = mp.mpf("0.5289"), 0.5068 * mp.sqrt(1022 * mp.mpf(kv) + mp.mpf(kv) ** 2)
    th = mp.mpf("0.006") * z / (2 * kv) * (2 * mp.mpf(kv) + 1022) / (kv + 1022)
    ta = mp.mpf(z) ** (mp.mpf(1) / 3) / (k0 * mp.mpf("0.885") * a0)
    om, ka = mp.mpf(g) / k0 / ta, th / ta
    o2, k2 = om ** 2, ka ** 2
    x1 = om / ((1 + o2) * mp.sqrt(o2 + 4 * k2)) * mp.log((om + mp.sqrt(o2 + 4 * k2)) / (2 * ka))
    rt = mp.sqrt((1 + o2) ** 2 + 4 * k2 * o2)
    x2 = mp.log((1 + 2 * k2 + o2 + rt) / (2 * ka * mp.sqrt(1 + k2))) / rt
    w = 2 * mp.sqrt(1 + k2)
    x3 = mp.asinh(om / w) / (om * mp.sqrt(o2 + w * w)) if om > 0 else 1 / (w * w)
    return float(4 / a0 ** 2 * 2 * mp.pi / k0 ** 2 * 2 * z / ta ** 2 * (-x1 + x2 - x3))


@functools.lru_cache(None)
def axis():
    """nodes and weights on (0, inf), dense near the origin"""
    x, w = np.polynomial.legendre.leggauss(70)
    n, wt = [], []
    e = [0, 0.15, 0.5, 1.5, 6, 40, 1000]
    for lo, hi in zip(e[:-1], e[1:]):
        n.append((hi - lo) / 2 * x + (hi + lo) / 2)
        wt.append((hi - lo) / 2 * w)
    return np.concatenate(n), np.concatenate(wt)


def absorb(f, s, B):
    """integral of f(s/2 + p) f(s/2 - p) (1 - exp(-2B(p^2 - s^2/4))) over the plane, times exp(-B s^2)"""
    x, w = axis()
    # the kink of the integrand sits at p = s/2 along x: put nodes there
    sh = s / 2
    px = np.concatenate([sh - sh * axis_unit()[0], sh + x]) if sh > 0 else x
    wx = np.concatenate([sh * axis_unit()[1], w]) if sh > 0 else w
    X, Y = px[:, None], x[None]
    s1 = np.sqrt((sh + X) ** 2 + Y ** 2)
    s2 = np.sqrt((sh - X) ** 2 + Y ** 2)
    v = f(s1) * f(s2) * -np.expm1(-2 * B * (X ** 2 + Y ** 2 - s * s / 4))
    return 4 * math.exp(-B * s * s) * float(wx @ v @ w)


@functools.lru_cache(None)
def axis_unit():
    x, w = np.polynomial.legendre.leggauss(30)
    n, wt = [], []
    e = [0, 0.04, 0.2, 0.5, 1]
    for lo, hi in zip(e[:-1], e[1:]):
        n.append((hi - lo) / 2 * x + (hi + lo) / 2)
        wt.append((hi - lo) / 2 * w)
    return np.concatenate(n), np.concatenate(wt)


def ei(x):
    return mp.ei(x)


def phonon(z, g, u):
    """thermal diffuse part, eqs. 15-21, in 30 digits"""
    if u == 0:
        return 0.0
    a = [mp.mpf(float(v)) * (4 * mp.pi) ** 2 for v in A_[z - 1]]
    b = [mp.mpf(float(v)) / (4 * mp.pi) ** 2 for v in B_[z - 1]]
    M, G = mp.mpf(u) ** 2 / 2, mp.mpf(g) ** 2
    tot = mp.mpf(0)
    for i in range(4):
        for j in range(4):
            p, q = b[i], b[j]
            if G == 0:
                i1 = p * mp.log((p + q) / p) + q * mp.log((p + q) / q)
                i2 = (p + 2 * M) * mp.log((p + q + 2 * M) / (p + 2 * M)) + q * mp.log((p + q + 2 * M) / (q + 2 * M)) + 2 * M * mp.log(2 * M / (q + 2 * M))
            else:
                i1 = (2 * mp.euler + mp.log(p * G) + mp.log(q * G) - 2 * ei(-p * q * G / (p + q))
                      + mp.exp(-p * G) * (ei(p * p * G / (p + q)) - ei(p * G)) + mp.exp(-q * G) * (ei(q * q * G / (p + q)) - ei(q * G))) / G
                P, Q, R = p + M, q + M, p + q + 2 * M
                i2 = (2 * (ei(-M * P * G / (p + 2 * M)) + ei(-M * Q * G / (q + 2 * M)) - ei(-P * Q * G / R) - ei(-M * G / 2))
                      + mp.exp(-M * G) * (2 * ei(M * G / 2) - ei(M * M * G / (p + 2 * M)) - ei(M * M * G / (q + 2 * M)))
                      + mp.exp(-P * G) * (ei(P * P * G / R) - ei(P * P * G / (p + 2 * M)))
                      + mp.exp(-Q * G) * (ei(Q * Q * G / R) - ei(Q * Q * G / (q + 2 * M)))) / G
            tot += a[i] * a[j] * mp.pi * (mp.exp(-M * G) * i1 - i2)
    return float(tot)


def assemble(fc, fp, z, g, u, kv):
    k0 = k0_of(kv)
    gam = 1 + kv / 511
    return (fc * math.exp(-0.5 * (u * g) ** 2) + fp) * gam ** 2 / (4 * math.pi * k0)


# ---- cases
EL = st.one_of(st.integers(1, 98), st.sampled_from([1, 6, 14, 28, 77, 79, 92, 98]))
CASE = st.fixed_dictionaries({"m": st.sampled_from(["wk", "hybrid"]), "z": st.lists(EL, min_size=1, max_size=3), "seed": gen.seeds(), "ng": st.integers(1, 5),
                              "zero_g": st.booleans(), "zero_u": st.sampled_from([False, False, False, True]), "core": st.booleans(), "phonon": st.booleans(),
                              "kv": st.lists(st.sampled_from([5.0, 10.0, 20.0, 30.0, 100.0, 200.0]), min_size=1, max_size=2, unique=True), "dtype": st.sampled_from(["f64", "f64", "f32"]), "scalar": st.booleans()})


def draw(c):
    r = gen.rng(c["seed"])
    lo = 0.0 if c["dtype"] == "f32" else -0.7
    g = 10 ** r.uniform(lo, 1.7, c["ng"])
    if c["zero_g"]:
        g[r.randint(c["ng"])] = 0
    u = r.uniform(0.03, 0.2, len(c["z"]))
    if c["scalar"]:
        u[:] = u[0]
    if c["zero_u"]:
        u[0 if c["scalar"] else r.randint(len(u))] = 0
        if c["scalar"]:
            u[:] = 0
    if c["dtype"] == "f32":
        g, u = g.astype(np.float32).astype(float), u.astype(np.float32).astype(float)
    return g, u


def call(c, g, u, **kw):
    dt = c["dtype"]
    f = W.scatter_factor_WK if c["m"] == "wk" else H.scatter_factor_hybrid
    z, uu, kv = torch.tensor(c["z"]), T(u, dt), T(c["kv"], dt)
    if c["scalar"]:
        uu = float(u[0])
        if len(c["z"]) == 1:
            z = int(c["z"][0])
        if len(c["kv"]) == 1:
            kv = c["kv"][0]
    return f(T(g, dt), z, uu, kv, include_core=c["core"], include_phonon=c["phonon"], **kw)


@sub("factors", CASE, quick=160, thorough=6000, nontrivial=lambda c: len(c["z"]) > 1 or c["zero_g"] or c["zero_u"])
def _fac(c):
    g, u = draw(c)
    out = call(c, g, u)
    assert out.shape == (len(c["kv"]), len(c["z"]), len(g)), "shape %s" % (tuple(out.shape),)
    re, im = N(out.real), N(out.imag)
    s = g / (4 * math.pi)
    mp.mp.dps = 30
    neg = False
    for j, z in enumerate(c["z"]):
        if c["m"] == "wk":
            fr, mag = wk_real(z, s)
        else:
            fr = lvd_real(z, s)
            mag = lvd_size(z, s) * {"f64": 1e-9, "f32": 1e-3}[c["dtype"]]
        fp = [phonon(z, x, u[j]) if c["phonon"] else 0.0 for x in g]
        base = phonon(z, 0, u[j]) if c["phonon"] and u[j] > 0 else 0.0
        for i, kv in enumerate(c["kv"]):
            want = fr * np.exp(-0.5 * (u[j] * g) ** 2) * (1 + kv / 511)
            assert np.all(np.abs(re[i, j] - want) <= 2.2e-3 * mag * (1 + kv / 511) + 1e-30), "real part for Z=%d at %s: %s, not %s" % (z, g.tolist(), re[i, j].tolist(), want.tolist())
            for n, x in enumerate(g):
                fc = core(z, x, kv) if c["core"] else 0.0
                w = assemble(fc, fp[n], z, x, u[j], kv)
                neg |= w < 0
                w = max(w, 0.0)
                top = assemble(fc, base, z, 0, u[j], kv)
                lim = {"f64": 1e-5, "f32": 4e-4}[c["dtype"]] * w + {"f64": 2e-7, "f32": 1e-4}[c["dtype"]] * top * 1.0 + 1e-12
                lim += 4e-4 * (1 + kv / 511) ** 2 / (4 * math.pi * k0_of(kv)) * tab(z, x, u[j]) if c["phonon"] else 0
                lim += (2e-3 * w if c["m"] == "hybrid" else 0)
                assert abs(im[i, j, n] - w) <= lim, "absorptive part for Z=%d at g=%r, u=%r, %g kV: %r, not %r (%.3g)" % (z, x, u[j], kv, im[i, j, n], w, lim)
                assert im[i, j, n] >= 0
    return ["negative" if neg else "positive", c["m"]]


def tab(z, g, u):
    """size of the terms that go through the interpolated table (argument above 20), where it is good to 1e-4"""
    if g == 0 or u == 0:
        return 0.0
    a = np.abs(A_[z - 1]) * (4 * math.pi) ** 2
    b = B_[z - 1] / (4 * math.pi) ** 2
    M, G, t = u * u / 2, g * g, 0.0
    for p, x in zip(b, a):
        for q, y in zip(b, a):
            R, P = p + q + 2 * M, p + M
            for ar, e, damp in ((p * p * G / (p + q), p * G, math.exp(-M * G)), (p * G, p * G, math.exp(-M * G)), (M * G / 2, M * G, 1), (M * M * G / (p + 2 * M), M * G, 1),
                                (P * P * G / R, P * G, 1), (P * P * G / (p + 2 * M), P * G, 1)):
                if ar > 20:
                    t += x * y * math.pi / G * math.exp(ar - e) / ar * damp
    return t


@sub("integral", st.fixed_dictionaries({"z": EL, "s": st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.8, 1.1, 1.5]), "u": st.sampled_from([0.05, 0.08, 0.12]), "kv": st.sampled_from([10.0, 20.0, 30.0]),
                                        "f": st.sampled_from(["wk", "lvd"])}), quick=60, thorough=3000, nontrivial=lambda c: c["s"] > 0)
def _int(c):
    """the absorptive part is the integral over all intermediate scattering angles"""
    B = 8 * math.pi ** 2 * c["u"] ** 2
    gam = 1 + c["kv"] / 511
    if c["f"] == "wk":
        ref = absorb(lambda s: wk_real(c["z"], s)[0], c["s"], B) * 4 * math.pi / k0_of(c["kv"]) * gam ** 2
        top = absorb(lambda s: wk_real(c["z"], s)[0], 0, B) * 4 * math.pi / k0_of(c["kv"]) * gam ** 2
        got = W.scatter_factor_WK(T([4 * math.pi * c["s"]]), c["z"], c["u"], c["kv"], include_core=False).imag.item()
        lim = 2e-3 * abs(ref) + 1e-4 * top
        ref = max(ref, 0)
    else:
        f = lambda s: lvd_real(c["z"], s)
        ref = absorb(f, c["s"], B) * 4 * math.pi / k0_of(c["kv"]) * gam ** 2
        top = absorb(f, 0, B) * 4 * math.pi / k0_of(c["kv"]) * gam ** 2
        got = L.scatter_factor_LVD(T([2 * c["s"]]), c["z"], c["u"], c["kv"], intervals=400).imag.item()
        lim = 1e-2 * abs(ref) + 3e-3 * top
    assert abs(got - ref) <= lim, "%s Z=%d s=%g u=%g: %r, not %r" % (c["f"], c["z"], c["s"], c["u"], got, ref)
    return [c["f"]]


@sub("batch", CASE, quick=80, thorough=2000, nontrivial=lambda c: len(c["z"]) > 1)
def _batch(c):
    """every entry of a batch is what the entry alone gives, in any order, in either convention"""
    g, u = draw(c)
    r = gen.rng(c["seed"] + 1)
    full = call(c, g, u)
    one = dict(c, z=[c["z"][-1]], kv=[c["kv"][-1]], scalar=True)
    k = r.randint(len(g))
    b = call(one, g[k:k + 1], u[-1:])
    assert b.shape == (1, 1, 1)
    d = abs(complex(full[-1, -1, k]) - complex(b))
    assert d <= 1e-6 * abs(complex(b)) + 1e-12, "entry %s of the batch, %s alone" % (complex(full[-1, -1, k]), complex(b))
    p = r.permutation(len(g))
    q = call(c, g[p], u)
    assert np.allclose(N(q.real), N(full.real)[..., p], rtol=1e-5, atol=1e-12) and np.allclose(N(q.imag), N(full.imag)[..., p], rtol=1e-5, atol=1e-9)
    itc = call(c, g / (2 * math.pi), u, return_type="ITC")
    assert not itc.is_complex() and itc.shape[-2:] == (len(c["z"]), len(g))
    for j, z in enumerate(c["z"]):
        w, mag = wk_real(z, g / (4 * math.pi)) if c["m"] == "wk" else (lvd_real(z, g / (4 * math.pi)), lvd_size(z, g / (4 * math.pi)))
        lim = (2.2e-3 if c["m"] == "wk" else {"f64": 1e-9, "f32": 1e-5}[c["dtype"]]) * np.abs(mag)
        assert (np.abs(N(itc)[0, j] - w) <= lim + 1e-30).all(), "tabulated convention, Z=%d: %s, not %s" % (z, N(itc)[0, j].tolist(), w.tolist())
    return [c["m"]]


@sub("lvd", st.fixed_dictionaries({"z": st.lists(EL, min_size=1, max_size=3), "s": st.lists(st.one_of(st.just(0.0), st.floats(0.01, 3)), min_size=1, max_size=3),
                                   "u": st.floats(0.0, 0.15), "kv": st.lists(st.sampled_from([5.0, 15.0, 30.0]), min_size=1, max_size=2), "dt": st.sampled_from(["f64", "f32"]),
                                   "n": st.integers(8, 24), "lin": st.booleans()}), quick=100, thorough=4000, nontrivial=lambda c: len(c["z"]) > 1 or len(c["kv"]) > 1)
def _lvd(c):
    """damped and relativistic real parts, bare ones in the convention of the tables, and absorptive parts that do not depend on the batch"""
    s, dt, u = np.array(c["s"]), c["dt"], c["u"]
    g, z, kv = T(2 * s, dt), torch.tensor(c["z"]), T(c["kv"], dt)
    kw = dict(intervals=c["n"], sampling_type="linspace" if c["lin"] else "logspace", interval_range=(0.0, 20.0))
    us = T([u] * len(c["z"]), dt)
    out = L.scatter_factor_LVD(g, z, us, kv, **kw)
    itc = L.scatter_factor_LVD(g, z, us, kv, return_type="ITC")
    assert tuple(out.shape) == (len(kv), len(z), len(g)), "shape %s" % (tuple(out.shape),)
    assert not itc.is_complex() and tuple(itc.shape) == (1, len(z), len(g))
    for j, y in enumerate(c["z"]):
        fr, mag = lvd_real(y, s), lvd_size(y, s) * {"f64": 1e-7, "f32": 1e-3}[dt]
        assert np.all(np.abs(N(itc)[0, j] - fr) <= mag), "bare factor of Z=%d at %s: %s, not %s" % (y, s.tolist(), N(itc)[0, j].tolist(), fr.tolist())
        for i, v in enumerate(c["kv"]):
            w = fr * np.exp(-8 * math.pi ** 2 * u * u * s * s) * (1 + v / 511)
            assert np.all(np.abs(N(out.real)[i, j] - w) <= 1e-5 * np.abs(w) + 2 * mag), "real part of Z=%d at %s: %s, not %s" % (y, s.tolist(), N(out.real)[i, j].tolist(), w.tolist())
            one = L.scatter_factor_LVD(g[:1], y, u, v, **kw)
            d = abs(one.imag.item() - out.imag[i, j, 0].item())
            assert d <= {"f64": 1e-9, "f32": 1e-3}[dt] * (abs(one.imag.item()) + 1e-2 * (1 + v / 511) * float(mag[0])) + {"f64": 1e-12, "f32": 1e-5}[dt] * lvd_size(y, 0.0) ** 2, "absorptive part in a batch %r, alone %r" % (out.imag[i, j, 0].item(), one.imag.item())
    return [dt, "linspace" if c["lin"] else "logspace"]


@sub("tables", st.fixed_dictionaries({"z": st.integers(1, 98)}), quick=98, thorough=98)
def _tab(c):
    """the two fits describe the same atom, obey the Mott-Bethe limit, and are the same in every module"""
    z = c["z"]
    s = np.array([0, 0.05, 0.1, 0.2, 0.3, 0.5, 0.8, 1.2, 2.0, 4.0])
    w, l = wk_real(z, s)[0], lvd_real(z, s)
    d = np.abs(w / l - 1)
    assert (d[:3] < 0.105).all() and (d[3:] < 0.025).all(), "the two fits for Z=%d differ by %s" % (z, d.tolist())
    assert abs((V_[z - 1, :5] / V_[z - 1, 5:]).sum() / (z / (2 * math.pi ** 2 * 0.52917721)) - 1) < 1e-4, "LVD fit of Z=%d misses the Mott-Bethe limit" % z
    assert abs(A_[z - 1].sum() / (0.0239336609 * z) - 1) < 1.5e-3, "WK fit of Z=%d misses the Mott-Bethe limit" % z
    assert torch.equal(W.wk_A_param[z - 1], H.wk_A_param[z - 1]) and torch.equal(W.wk_B_param[z - 1], H.wk_B_param[z - 1]) and torch.equal(L.fit_LVD[z - 1], H.fit_LVD[z - 1])
    return ["ok"]


@sub("simpson", st.fixed_dictionaries({"seed": gen.seeds(), "n": st.integers(3, 12), "uneven": st.booleans(), "batch": st.sampled_from([[], [2], [2, 3]])}), quick=200, thorough=8000)
def _simp(c):
    """exact for every parabola on every grid, and for cubics on an even number of equal steps"""
    r = gen.rng(c["seed"])
    x = np.cumsum(r.uniform(0.2, 2, c["n"])) if c["uneven"] else np.arange(c["n"]) * r.uniform(0.1, 2) + r.randn()
    deg = 3 if (not c["uneven"] and c["n"] % 2 == 1) else 2
    co = r.randn(*c["batch"], deg + 1)
    y = sum(co[..., k:k + 1] * x ** k for k in range(deg + 1))
    ref = sum(co[..., k] * (x[-1] ** (k + 1) - x[0] ** (k + 1)) / (k + 1) for k in range(deg + 1))
    got = N(L.simpson_composite(T(y), T(x)))
    lim = 1e-11 * (np.abs(co).sum() * max(1, np.abs(x).max()) ** (deg + 1))
    assert got.shape == tuple(c["batch"]) and (np.abs(got - ref) <= lim).all(), "%s, not %s" % (got.tolist(), np.asarray(ref).tolist())
    return ["odd" if c["n"] % 2 else "even"]


# the batch law: each entry is what it is alone, however long the list (a list of magnitudes has one dimension)
_pos = lambda r, n: [np.abs(r.randn(n)) * 10 ** r.uniform(-2, 1.3, n) + 1e-3]
_el = {"wk": lambda g, m: W.scatter_factor_WK(g, 29, 0.08, 20.0) if m else W.scatter_factor_WK(g, 6, 0.05, 20.0, include_core=False),
       "hy": lambda g, m: H.scatter_factor_hybrid(g, 29, 0.08, 20.0) if m else H.scatter_factor_hybrid(g, 6, 0.05, 20.0, include_core=False)}


def _fac(g, k, m):
    o = torch.view_as_real(_el[k](g, m)[0, 0])
    return o[..., 0], o[..., 1]


batch.add({
    **{"%s %s" % (n, k): {"fn": getattr(m, n), "make": _pos, "nd": 3, "dt": ["f64"], "grad": False} for k, m in MOD.items() for n in ("exp1", "expi", "RIH2_torch")},
    **{"RIH1 %s" % k: {"fn": lambda a, b, m=m: m.RIH1_torch_where(a, b, a + b), "make": lambda r, n: _pos(r, n) + _pos(r, n), "dt": ["f64"], "grad": False} for k, m in MOD.items()},
    "factors": {"fn": _fac, "make": lambda r, n: [r.uniform(0.5, 60, n)], "nd": 1, "opts": [(k, m) for k in ("wk", "hy") for m in (0, 1)], "dt": ["f64"], "grad": False, "cap": 20011},
}, quick=150)


finish_module(globals())
