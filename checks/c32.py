"""C32 Monte Carlo of backscattered electrons: every exit counted once, at the rates of Joy's model."""
import contextlib
import io
import math

import numpy as np
import torch

from checks import c08
from vlib import gen
from vlib.harness import finish_module, st, sub
from vlib.tu import DT, N, T, close

from ebsdtorch.simulation.monte_carlo import bse_sim_mc, rosca_lambert

RULE = ("A case is a material, beam (energy, tilt, azimuth), batch of electrons, stopping limits and a set of bins; non-trivial when at least 100 "
        "exits are asked for.")
ASSUMPTIONS = ["one step is: scatter at the current position, move, lose energy; an exit is recorded with its new direction, its energy after the move and the path left to "
               "the surface along that direction before it",
               "the published offset of the stopping power is the code's 0.9911",
               "histograms of some 10^4 exits are compared by two-sample chi-square at a level near 10^-10; smaller biases are not seen",
               "a random number that is exactly 0 (1 in 2^24 in single precision) gives an infinite step, which is not counted"]
MAT = {"Ni": (28.0, 8.911, 58.6934), "Al": (13.0, 2.7, 26.98), "Au": (79.0, 19.3, 196.97), "Fe": (26.0, 7.87, 55.845), "C": (6.0, 2.2, 12.011)}


def run(c, **kw):
    Z, rho, A = MAT[c["mat"]]
    torch.manual_seed(c["seed"] % (2**31))
    with contextlib.redirect_stdout(io.StringIO()):
        a = bse_sim_mc(c["E"], c["ne"], c["nd"], c["nz"], c["be"], c["bz"], Z, rho, A, c["n"], c["bse"], c["sims"], c["steps"], c["sigma"], c["omega"], DT[c["dtype"]],
                       torch.device("cpu"))
    assert tuple(a.shape) == (c["ne"], c["nz"], c["nd"], c["nd"]), "accumulator of shape %s" % (tuple(a.shape),)
    return N(a)


def ref(c, r):
    """the same experiment by NumPy; returns counts and the number of simulations and exits"""
    Z, rho, A = MAT[c["mat"]]
    n = c["n"]
    s, o = math.radians(c["sigma"]), math.radians(c["omega"])
    d0 = np.array([math.sin(s) * math.cos(o), math.sin(s) * math.sin(o), math.cos(s)])
    J = (9.76 * Z + 58.5 / Z**0.19) / 1000
    d, E, z, t = np.tile(d0, (n, 1)), np.full(n, c["E"]), np.zeros(n), np.zeros(n, int)
    acc = np.zeros((c["ne"], c["nz"], c["nd"], c["nd"]))
    bse = sims = 0
    with np.errstate(all="ignore"):
        while bse < c["bse"] and sims < c["sims"]:
            al = 0.0034 * Z**0.66667 / E
            xs = 5.21e-21 * (Z / E) ** 2 * 4 * math.pi / (al * (1 + al)) * ((E + 511) / (E + 1024)) ** 2  # cm^2 / atom
            lam = A / (6.022e23 * rho * xs) * 1e7  # nm
            step = lam * r.exponential(size=n)
            R = r.rand(n)
            cp = 1 - 2 * al * R / (1 + al - R)
            sp = np.where(np.abs(cp) <= 1, np.sqrt(np.maximum(0, 1 - cp**2)), np.nan)
            psi = 2 * math.pi * r.rand(n)
            h = np.where((np.abs(d[:, 2]) < 0.9)[:, None], [0.0, 0, 1], [1.0, 0, 0])
            e1 = np.cross(d, h)
            e1 /= np.linalg.norm(e1, axis=1, keepdims=True)
            e2 = np.cross(d, e1)
            d = cp[:, None] * d + sp[:, None] * (np.cos(psi)[:, None] * e1 + np.sin(psi)[:, None] * e2)
            d /= np.linalg.norm(d, axis=1, keepdims=True)
            path = np.abs(z / d[:, 2])
            z = z + step * d[:, 2]
            E_new = E - step * rho * 0.00785 * Z / (A * E) * np.log(1.166 * E / J + 0.9911)
            E = E_new
            out = z < 0
            ie, iz = (c["E"] - E[out]) / c["be"], path[out] / c["bz"]
            p = to_square(d[out])
            k = np.clip(np.floor((p * 0.499999 + 0.5) * c["nd"]).astype(int), 0, c["nd"] - 1)
            ok = (ie > -1) & (ie < c["ne"]) & (iz < c["nz"])
            np.add.at(acc, (ie[ok].astype(int), iz[ok].astype(int), k[ok, 0], k[ok, 1]), 1)
            t += 1
            reset = out | (t > c["steps"])
            d[reset], E[reset], z[reset], t[reset] = d0, c["E"], 0, 0
            bse += int(out.sum())
            sims += int(reset.sum())
    return acc, sims, bse


def to_square(v):
    """inverse of c08.ref_square on the hemisphere |z|"""
    x, y, z = v[:, 0], v[:, 1], np.abs(v[:, 2])
    sw = np.abs(y) > np.abs(x)
    a, b = np.where(sw, y, x), np.where(sw, x, y)
    A = np.sqrt(np.maximum(0, 1 - z)) * np.where(a < 0, -1, 1)
    B = np.where(a == 0, 0, A * np.arctan(b / np.where(a == 0, 1, a)) * 4 / math.pi)
    return np.stack([np.where(sw, B, A), np.where(sw, A, B)], -1)


def same(a, b, what, limit=6.5):
    """two-sample chi-square of two histograms; Wilson-Hilferty normal score"""
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    keep = a + b >= 25
    a, b = np.append(a[keep], a[~keep].sum()), np.append(b[keep], b[~keep].sum())
    if a[-1] + b[-1] < 25:
        a, b = a[:-1], b[:-1]
    k = len(a) - 1
    if k < 1:
        return
    na, nb = a.sum(), b.sum()
    chi = ((a * math.sqrt(nb / na) - b * math.sqrt(na / nb)) ** 2 / (a + b)).sum()
    zs = ((chi / k) ** (1 / 3) - 1 + 2 / (9 * k)) / math.sqrt(2 / (9 * k))
    assert zs < limit, "%s: chi-square %.1f with %d degrees of freedom (score %.1f) between %d and %d exits" % (what, chi, k, zs, na, nb)


BEAM = {"seed": gen.seeds(), "mat": st.sampled_from(sorted(MAT)), "E": st.sampled_from([5.0, 12.0, 20.0, 30.0]), "sigma": st.sampled_from([70.0, 60.0, 0.0, 35.0, 85.0]),
        "omega": st.sampled_from([0.0, 90.0, 30.0, -135.0])}


@sub("counting", st.fixed_dictionaries(dict(BEAM, n=st.sampled_from([1, 2, 50, 1000, 3000]), bse=st.sampled_from([1, 100, 1500]), sims=st.sampled_from([10**9, 10**9, 500, 1]),
                                            steps=st.sampled_from([300, 20, 1]), ne=st.integers(1, 3), nz=st.integers(1, 2), nd=st.sampled_from([1, 2, 5]),
                                            dtype=st.sampled_from(["f64", "f32"]))), quick=60, thorough=1500, nontrivial=lambda c: c["bse"] >= 100 and c["n"] > 1)
def _count(c):
    if c["n"] < 50:
        c["bse"], c["sims"] = min(c["bse"], 20), min(c["sims"], 100)
    if c["sims"] > 10**8 and c["sigma"] < 30:
        c["sims"] = 4000
    # bins so wide that every exit falls into one of them
    c["be"], c["bz"] = (c["E"] + 50) / c["ne"], 1e15
    a = run(c)
    assert np.isfinite(a).all() and (a >= 0).all() and (a == np.round(a)).all(), "counts are not natural numbers"
    s = a.sum()
    assert s < c["bse"] + c["n"], "%d exits counted, at most %d can have happened" % (s, c["bse"] + c["n"] - 1)
    assert s < c["sims"] + c["n"], "%d exits in at most %d simulations" % (s, c["sims"] + c["n"] - 1)
    if c["sims"] > 10**8:
        assert s >= c["bse"] - (2 if c["dtype"] == "f32" else 0), "%d exits counted, but the run ends only after %d" % (s, c["bse"])
    return [c["dtype"], "sims" if c["sims"] < 10**8 else "bse", "steps%d" % c["steps"]]


@sub("rates", st.fixed_dictionaries(dict(BEAM, n=st.sampled_from([20000, 2000]), bse=st.just(10**9), steps=st.sampled_from([300, 60, 2, 5, 300, 1]),
                                         ne=st.sampled_from([20, 7]), nz=st.sampled_from([20, 9]), nd=st.sampled_from([7, 4]), wide=st.sampled_from([1.0, 0.3]),
                                         dtype=st.sampled_from(["f32", "f32", "f64"]))), quick=16, thorough=600, nontrivial=lambda c: True, budget=40)
def _rates(c):
    # few steps are cheap and seldom end in an exit
    c["sims"] = {1: 400000, 2: 400000, 5: 200000}.get(c["steps"], 60000 if c["n"] > 2000 else 15000)
    c["n"] *= 3 if c["steps"] < 60 and c["n"] > 2000 else 1
    c["be"] = c["E"] * c["wide"] / c["ne"] * {1: 0.04, 2: 0.05, 5: 0.1}.get(c["steps"], 1)
    Z, rho, A = MAT[c["mat"]]
    c["bz"] = c["E"] ** 1.67 * c["wide"] * 3000 / (rho * Z**0.5) / 30 / c["nz"] * {1: 0.07, 2: 0.1, 5: 0.2}.get(c["steps"], 1)
    a = run(c)
    b, sims, bse = ref(c, gen.rng(c["seed"] + 1))
    what = "%s at %g keV, tilt %g" % (c["mat"], c["E"], c["sigma"])
    # fraction of the simulations that ends in a counted exit
    same([a.sum(), c["sims"] - a.sum()], [b.sum(), c["sims"] - b.sum()], what + ": exits within the bins", 6.5)
    if min(a.sum(), b.sum()) < 100:
        return ["few"]
    same(a.sum((1, 2, 3)), b.sum((1, 2, 3)), what + ": energies")
    same(a.sum((0, 2, 3)), b.sum((0, 2, 3)), what + ": depths")
    same(a.sum((0, 1)), b.sum((0, 1)), what + ": directions")
    same(a.sum((2, 3)), b.sum((2, 3)), what + ": energies and depths")
    h = c["ne"] // 2
    same(np.stack([a[:h].sum((0, 1)), a[h:].sum((0, 1))]), np.stack([b[:h].sum((0, 1)), b[h:].sum((0, 1))]), what + ": energies and directions")
    return [c["mat"], "steps%d" % c["steps"], c["dtype"]]


@sub("direction", st.fixed_dictionaries({
    "p": st.one_of(st.lists(st.floats(-0.9995, 0.9995), min_size=2, max_size=2), st.tuples(st.floats(-1, 1), st.sampled_from([-0.9995, 0.9995, 0.0])).map(list),
                   st.tuples(st.sampled_from([-0.9995, 0.9995, 0.0]), st.floats(-1, 1)).map(list)),
    "nd": gen.size(1, 60, 101, 501), "dtype": st.sampled_from(["f32", "f64"]), "seed": gen.seeds()}), quick=150, thorough=5000, nontrivial=lambda c: c["nd"] > 1)
def _direction(c):
    """electrons too fast to be deflected leave in the direction they are shot in"""
    p = np.clip(c["p"], -0.9995, 0.9995)
    v = c08.ref_square(p[None])[0]
    e = dict(c, n=20, bse=40, sims=400, steps=3, ne=1, nz=1, be=1e9, bz=1e15, E=1e8, mat="C", sigma=math.degrees(math.acos(-v[2])), omega=math.degrees(math.atan2(v[1], v[0])))
    a = run(e)[0, 0]
    x = (p * 0.5 + 0.5) * c["nd"]
    edge = (np.abs(x - np.round(x)) < 3e-4 * c["nd"]) & (np.round(x) > 0) & (np.round(x) < c["nd"])
    if edge.any():
        return ["edge"]
    k = np.minimum(x.astype(int), c["nd"] - 1)
    assert a.sum() >= 40 and a[k[0], k[1]] >= 0.9 * a.sum(), "%d of %d exits towards %r in bin %r" % (a[k[0], k[1]], a.sum(), v.tolist(), k.tolist())
    return [c["dtype"], "rim" if np.abs(p).max() > 0.98 else "inside"]


@st.composite
def dirs(draw):
    return {"pts": [draw(gen.s2_point()) for _ in range(draw(st.integers(1, 6)))], "dtype": draw(st.sampled_from(["f64", "f32"]))}


@sub("projection", dirs(), quick=300, thorough=20000, nontrivial=lambda c: len(c["pts"]) > 1)
def _proj(c):
    v = np.array(c["pts"])
    t = T(v, c["dtype"])
    keep = t.clone()
    p = N(rosca_lambert(t))
    assert torch.equal(t, keep), "directions modified"
    assert p.shape == (len(v), 2) and (np.abs(p) <= 1 + 1e-6).all(), "outside the square"
    v = np.abs(v) * np.where(N(t) < 0, -1, 1)
    v[:, 2] = np.abs(v[:, 2])
    close(c08.ref_square(p), v, 2e-7 if c["dtype"] == "f64" else 1e-3, "inverse of the projection")
    return [c["dtype"]]


finish_module(globals())
