"""C35 OpenCL Monte Carlo: the kernel's physics, the driver that gathers histograms, and their resampling in depth."""
import contextlib
import functools
import io
import math

import numpy as np
import torch

from vlib import clstub, gen
from vlib.harness import finish_module, st, sub
from vlib.tu import N, close

clstub.install()

from checks.c32 import MAT, same, to_square
from ebsdtorch.crystallography import ebsd_mc as mc
from ebsdtorch.crystallography.unit_cell import Cell

RULE = ("A case is a material, beam, binning and numbers of electrons and trials (kernel), or a driver configuration with the histograms the kernel is to give (driver), or a "
        "histogram and a linear binning (resampling); non-trivial when there are at least 1000 trajectories, two launches, or three depth bins.")
ASSUMPTIONS = ["the OpenCL kernel runs on the host, compiled by clang's OpenCL C front end against a stand-in for pyopencl (vlib/clstub.py); work items run one after another, so "
               "races between them are not explored",
               "a trajectory ends at its first exit, when its energy is used up, or after the stated number of steps",
               "histograms of some 10^5 trajectories are compared by two-sample chi-square at a level near 10^-10",
               "resampling is checked for points inside the range of the depth bins' centres"]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def trajectories(mat, E0, sigma, omega, n, steps, r):
    """energy, depth path and direction of the exits of n trajectories"""
    Z, rho, A = mat
    s, o = math.radians(sigma), math.radians(omega)
    J = (9.76 * Z + 58.5 / Z**0.19) / 1000
    d, E, z = np.tile([math.sin(s) * math.cos(o), math.sin(s) * math.sin(o), math.cos(s)], (n, 1)), np.full(n, E0), np.zeros(n)
    outs = []
    with np.errstate(all="ignore"):
        for _ in range(steps):
            m = len(E)
            if not m:
                break
            al = 0.0034 * Z**0.66667 / E
            xs = 5.21e-21 * (Z / E) ** 2 * 4 * math.pi / (al * (1 + al)) * ((E + 511) / (E + 1024)) ** 2
            step = A / (6.022e23 * rho * xs) * 1e7 * r.exponential(size=m)
            R = r.rand(m)
            cp = 1 - 2 * al * R / (1 + al - R)
            sp = np.sqrt(np.maximum(0, 1 - cp**2))
            psi = 2 * math.pi * r.rand(m)
            h = np.where((np.abs(d[:, 2]) < 0.9)[:, None], [0.0, 0, 1], [1.0, 0, 0])
            e1 = np.cross(d, h)
            e1 /= np.linalg.norm(e1, axis=1, keepdims=True)
            e2 = np.cross(d, e1)
            d = cp[:, None] * d + sp[:, None] * (np.cos(psi)[:, None] * e1 + np.sin(psi)[:, None] * e2)
            d /= np.linalg.norm(d, axis=1, keepdims=True)
            path = np.abs(z / d[:, 2])
            z = z + step * d[:, 2]
            E = E - step * rho * 0.00785 * Z / (A * E) * np.log(1.166 * E / J + 0.9911)
            live = E > 0
            out = live & (z < 0)
            outs.append((E[out], path[out], d[out]))
            go = live & ~out
            d, E, z = d[go], E[go], z[go]
    return tuple(np.concatenate([x[k] for x in outs]) for k in range(3))


def launch(c, n, trials, steps=None, E=None):
    Z, rho, A = MAT[c["mat"]]
    np.random.seed(c["seed"] % (2**32))
    clstub.hook = None
    del clstub.log[:]
    return np.asarray(mc.run_monte_carlo_simulation(
        {"atom_num": Z, "unit_cell_density_rho": rho, "atomic_weight_A": A, "residual": 0.0},
        {"n_electrons": n, "n_trials_per_electron": trials, "starting_E_keV": c["E"], "n_exit_energy_bins": c["ne"], "n_exit_depth_bins": c["nz"],
         "n_exit_direction_bins": c["nd"], "depth_mode": c["mode"], "sigma": c["sigma"], "omega": c["omega"], "binsize_exit_energy": c["be"], "binsize_exit_depth": c["bz"],
         "n_max_steps": c["steps"] if steps is None else steps}))


def lfsr113(z):
    out = np.empty_like(z)
    for k, (a, b, m, d) in enumerate(((6, 13, 1, 18), (2, 27, 7, 2), (13, 21, 15, 7), (3, 12, 127, 13))):
        v = z[:, k]
        out[:, k] = ((v & np.uint32(0xFFFFFFFF ^ m)) << np.uint32(d)) ^ (((v << np.uint32(a)) ^ v) >> np.uint32(b))
    return out


BEAM = {"seed": gen.seeds(), "mat": st.sampled_from(sorted(MAT)), "E": st.sampled_from([5.0, 12.0, 20.0, 30.0]), "sigma": st.sampled_from([70.0, 60.0, 0.0, 35.0, 85.0]),
        "omega": st.sampled_from([0.0, 90.0, 30.0, -135.0]), "mode": st.sampled_from(["log", "linear"])}


@sub("kernel", st.fixed_dictionaries(dict(BEAM, n=st.sampled_from([1, 7, 1000, 3000]), trials=st.sampled_from([1, 2, 3, 8]), steps=st.sampled_from([300, 20, 1]),
                                          ne=st.integers(1, 4), nz=st.integers(1, 3), nd=st.sampled_from([1, 2, 5]))), quick=30, thorough=1000,
     nontrivial=lambda c: c["n"] >= 1000)
def _kernel(c):
    # bins so wide that every exit falls into one of them: each trajectory counts at most once
    c["be"], c["bz"] = (c["E"] + 50) / c["ne"], 1e15 if c["mode"] == "linear" else 100.0
    h = launch(c, c["n"], c["trials"])
    assert h.shape == (c["ne"], c["nz"], c["nd"], c["nd"]), "histogram of shape %s" % (h.shape,)
    tot = c["n"] * c["trials"]
    assert 0 <= int(h.sum()) <= tot, "%d exits of %d trajectories" % (h.sum(), tot)
    # more steps let the same trajectories go on: no exit is lost
    first = dict(clstub.before), dict(clstub.after)
    if c["trials"] == 1 and c["steps"] < 300:
        h2 = launch(c, c["n"], 1, steps=300)
        assert (h2.astype(int) >= h.astype(int)).all(), "exits within %d steps are missing when 300 steps are allowed" % c["steps"]
    if c["n"] < 100 and c["steps"] < 300:
        # three random numbers a step, all from L'Ecuyer's LFSR113
        z, end = first[0]["seeds"].copy(), first[1]["seeds"]
        left = np.ones(len(z), bool)
        for _ in range(3 * c["steps"] * c["trials"]):
            z = lfsr113(z)
            left &= ~(z == end).all(1)
        assert not left.any(), "a random state is not on the sequence of LFSR113 of its seed"
    k = clstub.log[-1]
    assert k[2] == (c["n"],), "%s work items for %d electrons" % (k[2], c["n"])
    return [c["mode"], "n%d" % c["n"]]


@sub("physics", st.fixed_dictionaries(dict(BEAM, n=st.sampled_from([30000, 6000]), steps=st.sampled_from([400, 400, 60, 1, 2, 8]), ne=st.sampled_from([20, 7]),
                                           nz=st.sampled_from([20, 9]), nd=st.sampled_from([7, 4]), wide=st.sampled_from([1.0, 0.3]))), quick=20, thorough=500,
     nontrivial=lambda c: c["n"] >= 1000, budget=60)
def _physics(c):
    trials = 60000 // c["n"]
    S = c["n"] * trials
    Z, rho, A = MAT[c["mat"]]
    c["be"] = c["E"] * c["wide"] / c["ne"] * {1: 0.04, 2: 0.05, 8: 0.15}.get(c["steps"], 1)
    c["bz"] = c["E"] ** 1.67 * c["wide"] * 3000 / (rho * Z**0.5) / 30 / c["nz"] * {1: 0.07, 2: 0.1, 8: 0.25}.get(c["steps"], 1)
    if c["mode"] == "log":
        c["bz"] = math.log1p(c["bz"] * c["nz"]) / c["nz"]
    a = launch(c, c["n"], trials).astype(float)
    E, p, d = trajectories(MAT[c["mat"]], c["E"], c["sigma"], c["omega"], S, c["steps"], gen.rng(c["seed"] + 1))
    ie = ((c["E"] - E) / c["be"]).astype(int)
    iz = ((np.log1p(p) if c["mode"] == "log" else p) / c["bz"]).astype(int)
    k = np.clip(np.floor((to_square(d) * 0.499999 + 0.5) * c["nd"]).astype(int), 0, c["nd"] - 1)
    ok = (ie > -1) & (ie < c["ne"]) & (iz < c["nz"])
    b = np.zeros(a.shape)
    np.add.at(b, (ie[ok], iz[ok], k[ok, 0], k[ok, 1]), 1)
    what = "%s at %g keV, tilt %g" % (c["mat"], c["E"], c["sigma"])
    same([a.sum(), S - a.sum()], [b.sum(), S - b.sum()], what + ": exits within the bins")
    if min(a.sum(), b.sum()) < 100:
        return ["few"]
    same(a.sum((1, 2, 3)), b.sum((1, 2, 3)), what + ": energies")
    same(a.sum((0, 2, 3)), b.sum((0, 2, 3)), what + ": depths")
    same(a.sum((0, 1)), b.sum((0, 1)), what + ": directions")
    same(a.sum((2, 3)), b.sum((2, 3)), what + ": energies and depths")
    h = c["ne"] // 2
    same(np.stack([a[:h].sum((0, 1)), a[h:].sum((0, 1))]), np.stack([b[:h].sum((0, 1)), b[h:].sum((0, 1))]), what + ": energies and directions")
    return [c["mat"], "steps%d" % c["steps"], c["mode"]]


CELLS = [(225, [(28, 0.0, 0.0, 0.0, 1.0, 0.0035)], 0.35236), (225, [(11, 0.0, 0.0, 0.0, 1.0, 0.005), (17, 0.5, 0.5, 0.5, 1.0, 0.005)], 0.559),
         (229, [(26, 0.0, 0.0, 0.0, 1.0, 0.0035)], 0.28665), (227, [(14, 0.0, 0.0, 0.0, 0.5, 0.0035)], 0.5431)]
# atoms per cell by hand: (Z, number in the cell)
CONTENT = [[(28, 4)], [(11, 4), (17, 4)], [(26, 2)], [(14, 4.0)]]
MASS = {28: 58.6934, 11: 22.98977, 17: 35.453, 26: 55.845, 14: 28.0855}


@functools.lru_cache(None)
def crystal(k):
    sg, atoms, a = CELLS[k]
    return quiet(Cell, sg_num=sg, atom_data=atoms, abc=(a,) * 3, abc_units="nm", angles=(90.0,) * 3, angles_units="deg")


def simulator(c, **kw):
    cell = crystal(c.get("cell", 0))
    return quiet(mc.MonteCarloSimulator, cell=cell, kV=c["kV"], incidence_angle=c.get("sigma", 70.0), binsize_exit_energy=c["be"], binsize_exit_depth=c["bz"], n_depth_bins=c["nz"],
                 n_direction_bins=c["nd"], n_energy_bins_extra=c["extra"], omega=c.get("omega", 0.0), **kw)


DRV = {"seed": gen.seeds(), "kV": st.sampled_from([30.0, 20.0, 15.5, 10.25]), "be": st.sampled_from([0.5, 1.0, 2.5]), "bz": st.sampled_from([0.1, 0.5, 0.07]), "nz": st.integers(1, 6),
       "nd": st.sampled_from([1, 2, 3, 6]), "extra": st.sampled_from([4, 0, 1, 7])}


@sub("driver", st.fixed_dictionaries(dict(DRV, omega=st.sampled_from([0.0, 0.0, 30.0, -90.0]), sigma=st.sampled_from([70.0, 0.0, 55.5]), cell=st.integers(0, 3),
                                          mode=st.sampled_from(["log", "linear"]), n=st.sampled_from([None, 100, 2500]), trials=st.sampled_from([1, 10, 3]),
                                          launches=st.integers(1, 5), exact=st.booleans(), scale=st.sampled_from([3, 1000]))), quick=120, thorough=6000,
     nontrivial=lambda c: c["launches"] > 1)
def _driver(c):
    """histograms that the kernel is made to give come back added up, without the extra bins, in as few launches as the mass needs"""
    r = gen.rng(c["seed"])
    fill = int(c["kV"] // c["be"])
    shape = (fill + c["extra"], c["nz"], c["nd"], c["nd"])
    hs = [r.randint(0, c["scale"], size=shape).astype(np.uint32) for _ in range(c["launches"])]
    for h in hs:
        h[-1, -1, -1, -1] += 1
    inside = [h[c["extra"]:].astype(float) for h in hs]
    cum = np.cumsum([h.sum() for h in inside])
    need = cum[-1] if c["exact"] else (cum[-2] if len(cum) > 1 else 0) + 1
    calls = []

    def hook(d, gsize):
        k = len(calls)
        assert k < len(hs), "launched again although %d exits of %d are there" % (cum[-1], need)
        calls.append({a: v for a, v in d.items() if not isinstance(v, np.ndarray)})
        assert d["accumulator"].shape == shape and not d["accumulator"].any(), "the accumulator is not an empty histogram of shape %s" % (shape,)
        s = d["seeds"]
        assert s.shape == (gsize[0], 4) and s.dtype == np.uint32, "seeds"
        if len(s) >= 100:
            assert len(np.unique(s[:1000], axis=0)) > min(len(s), 1000) - 3, "electrons share random states"
        d["accumulator"][...] = hs[k]

    clstub.hook = hook
    try:
        sim = simulator(c, depth_mode=c["mode"], min_histogram_mass=int(need), n_max_steps_override=123)
        if c["n"] is None:
            # the default number is taken from the simulator; keep the run light
            sim.base_simulation_params["n_electrons"] = 700
        got, total = quiet(sim.run_simulation, n_electrons=c["n"], n_trials_per_electron=c["trials"])
    finally:
        clstub.hook = None
    n = c["n"] or 700
    assert len(calls) == len(hs), "%d launches, %d are needed" % (len(calls), len(hs))
    assert total == n * c["trials"] * len(hs), "%d trajectories reported, %d run" % (total, n * c["trials"] * len(hs))
    want = sum(inside)
    if c["omega"] == 0.0:
        want = (want + want[..., ::-1]) / 2
    close(N(got).astype(float), want, 1e-6 * want.max() + 1e-9, "histogram")
    mass = sum(k * MASS[z] for z, k in CONTENT[c["cell"]])
    atoms = sum(k for z, k in CONTENT[c["cell"]])
    a = CELLS[c["cell"]][2]
    for k in calls:
        assert abs(k["starting_E_keV"] - (c["kV"] + c["extra"] * c["be"])) < 1e-4, "starting energy %g" % k["starting_E_keV"]
        for name, v in (("n_trials_per_electron", c["trials"]), ("n_exit_energy_bins", shape[0]), ("n_exit_depth_bins", c["nz"]), ("n_exit_direction_bins", c["nd"]),
                        ("binsize_exit_energy", c["be"]), ("binsize_exit_depth", c["bz"]), ("n_max_steps", 123), ("sigma", c["sigma"]), ("omega", c["omega"]),
                        ("depth_mode", 0 if c["mode"] == "linear" else 1)):
            assert abs(k[name] - v) <= 1e-6 * abs(v), "%s is %s, not %s" % (name, k[name], v)
        assert abs(k["atom_num"] - sum(m * z for z, m in CONTENT[c["cell"]]) / atoms) < 1e-3, "mean atomic number %g" % k["atom_num"]
        assert abs(k["atomic_weight_A"] / (mass / atoms) - 1) < 2e-3, "mean atomic weight %g" % k["atomic_weight_A"]
        assert abs(k["unit_cell_density_rho"] / (mass / (a**3 * 602.214)) - 1) < 2e-3, "density %g" % k["unit_cell_density_rho"]
    return ["launches%d" % len(hs), "omega0" if c["omega"] == 0 else "turned", c["mode"]]


@sub("steps", st.fixed_dictionaries(dict(DRV, fraction=st.sampled_from([0.01, 0.002, 0.0005]), good=st.sampled_from([250, 400, 500, 750, 1001, 1750, 2000, 2500]),
                                         hole=st.sampled_from(["last", "any"]))), quick=60, thorough=3000, nontrivial=lambda c: c["good"] > 250)
def _steps(c):
    """the smallest step limit of the list that fills every energy bin below the accelerating voltage"""
    r = gen.rng(c["seed"])
    fill = int(c["kV"] // c["be"])
    seen = []

    def hook(d, gsize):
        seen.append((int(d["n_max_steps"]), gsize[0]))
        acc = d["accumulator"]
        acc[:] = r.randint(0, 3, size=acc.shape)
        acc[:, r.randint(acc.shape[1]), r.randint(acc.shape[2]), r.randint(acc.shape[3])] += 1
        if d["n_max_steps"] < c["good"]:
            acc[c["extra"] + (fill - 1 if c["hole"] == "last" else r.randint(fill))] = 0
        if c["extra"] and r.rand() < 0.5:
            acc[r.randint(c["extra"])] = 0  # the bins above the voltage do not matter

    clstub.hook = hook
    try:
        sim = simulator(c, find_steps_fraction=c["fraction"])
    finally:
        clstub.hook = None
    choices = [250, 500, 750, 1000, 1250, 1500, 1750, 2000]
    want = min([k for k in choices if k >= c["good"]] or [2000])
    assert sim.n_max_steps == want, "%d steps, the energies are filled from %d on" % (sim.n_max_steps, c["good"])
    n = int(1_000_000 * c["fraction"])
    assert all(abs(g - n) <= 1 for _, g in seen), "test runs of %s electrons, not %d" % (seen[0][1], n)
    return ["good%d" % c["good"], c["hole"]]


def parabola(x, xs, ys):
    (a, b, e), (p, q, s) = xs, ys
    return p * (x - b) * (x - e) / ((a - b) * (a - e)) + q * (x - a) * (x - e) / ((b - a) * (b - e)) + s * (x - a) * (x - b) / ((e - a) * (e - b))


@sub("resample", st.fixed_dictionaries(dict(DRV, nz=st.integers(3, 90), nd=st.sampled_from([1, 2, 3]), kind=st.sampled_from(["linear", "quadratic"]), data=st.sampled_from(["random", "ramp", "square"]),
                                            nlin=st.sampled_from([1, 5, 40]), reach=st.floats(0.05, 1.0), norm=st.booleans(), kV=st.sampled_from([3.0, 10.0]))),
     quick=150, thorough=10000, nontrivial=lambda c: c["nlin"] > 1)
def _resample(c):
    """depth densities at equidistant depths, interpolated between the centres of the logarithmic bins"""
    r = gen.rng(c["seed"])
    c["bz"] = min(c["bz"], 8.0 / c["nz"])
    clstub.hook = None
    sim = simulator(c, depth_mode="log", n_max_steps_override=10)
    fill = int(c["kV"] // c["be"])
    edge = np.expm1(np.arange(c["nz"] + 1) * c["bz"])
    mid, wid = (edge[1:] + edge[:-1]) / 2, np.diff(edge)
    if c["data"] == "random":
        h = r.randint(0, 1000, size=(fill, c["nz"], c["nd"], c["nd"])).astype(float)
    else:
        k = r.uniform(0.1, 2, size=(fill, 1, c["nd"], c["nd"]))
        m = mid[None, :, None, None]
        h = (1 + k * m if c["data"] == "ramp" else 1 + k * m + r.uniform(0, 2) * m**2) * wid[None, :, None, None]
    lo, hi = mid[0], mid[-1]
    # equidistant centres b/2, 3b/2, ... inside [lo, hi]
    b = max(2 * lo * 1.0001, c["reach"] * hi / c["nlin"])
    n = c["nlin"]
    while n > 1 and (n - 0.5) * b > hi:
        n -= 1
    if (n - 0.5) * b > hi * 0.9999:
        return ["none"]
    x = (np.arange(n) + 0.5) * b
    t = torch.tensor(h, dtype=torch.float32)
    keep = t.clone()
    got = N(sim.resample_to_linear(t, n_linear_bins=n, linear_binsize=float(b), interpolation=c["kind"], normalize=c["norm"])).astype(float)
    assert torch.equal(t, keep), "histogram modified"
    assert got.shape == (fill, n, c["nd"], c["nd"]), "shape %s" % (got.shape,)
    y = h / wid[None, :, None, None]
    want, alt = np.zeros(got.shape), np.zeros(got.shape)
    tol = np.zeros(got.shape)
    for j, v in enumerate(x):
        i = min(max(int(np.searchsorted(mid, v)), 1), c["nz"] - 1)  # mid[i-1] < v <= mid[i]
        if c["kind"] == "linear":
            want[:, j] = alt[:, j] = y[:, i - 1] + (y[:, i] - y[:, i - 1]) * (v - mid[i - 1]) / (mid[i] - mid[i - 1])
            big = np.abs(y[:, i - 1:i + 1]).max(1)
        else:
            # the parabola through three neighbouring centres around v; both choices are parabolas of that kind
            tri = [s for s in (i - 2, i - 1) if 0 <= s <= c["nz"] - 3]
            f = [parabola(v, mid[s:s + 3], [y[:, s + q] for q in range(3)]) for s in tri]
            want[:, j], alt[:, j] = f[-1], f[0]
            big = np.abs(y[:, max(0, i - 2):i + 2]).max(1)
        tol[:, j] = 2e-4 * big + 1e-9
        if c["kind"] == "linear":
            tol[:, j] += 3e-5 * big * v / (mid[i] - mid[i - 1])
        # single precision moves the point by a few 1e-7 of itself
        tol[:, j] += 3e-6 * big * v / (mid[i] - mid[i - 1])
    want, alt = np.maximum(want, 0), np.maximum(alt, 0)
    if c["data"] == "ramp" or (c["data"] == "square" and c["kind"] == "quadratic"):
        k2 = (y[:, -1] - y[:, 0])
        assert np.abs(want - alt).max() <= 1e-6 * np.abs(y).max() + (0 if c["data"] == "square" else 1e-6 * np.abs(k2).max()), "reference"
    if c["norm"]:
        if want.sum() <= 0:
            return ["empty"]
        s = got.sum()
        assert abs(s - 1) < 1e-3, "normalised histogram sums to %g" % s
        # only the factor changed
        g0 = N(sim.resample_to_linear(t, n_linear_bins=n, linear_binsize=float(b), interpolation=c["kind"], normalize=False)).astype(float)
        close(got * g0.sum(), g0, 1e-5 * g0.max(), "normalised histogram")
        got = g0
    bad = (np.abs(got - want) > tol) & (np.abs(got - alt) > tol)
    assert not bad.any(), "%s: %g instead of %g at depth %g" % (c["kind"], got[bad][0], want[bad][0], x[np.argwhere(bad)[0][1]])
    return [c["kind"], c["data"]]


@sub("interpolation", st.fixed_dictionaries({"seed": gen.seeds(), "n": st.integers(3, 12), "m": st.integers(1, 9), "batch": st.sampled_from([[], [2], [3, 2]]), "dim": st.integers(0, 2),
                                             "kind": st.sampled_from(["linear", "quadratic"]), "mode": st.sampled_from(["const", "in", "out", "nodes"])}),
     quick=200, thorough=20000, nontrivial=lambda c: c["m"] > 1)
def _interp(c):
    """interpolation along one dimension: nodes are kept, points outside are constant, extrapolated or refused"""
    r = gen.rng(c["seed"])
    sim = simulator({"kV": 3.0, "be": 1.0, "bz": 0.1, "nz": 3, "nd": 1, "extra": 0}, n_max_steps_override=1)
    f = getattr(sim, "_interp" if c["kind"] == "linear" else "_interpquad", None)
    if f is None:  # an inner method: what it does shows in resample_to_linear as well
        return ["absent"]
    sh = c["batch"]
    xp = np.cumsum(r.uniform(0.2, 2.0, size=sh + [c["n"]]), -1) + r.uniform(-3, 3)
    fp = r.normal(size=sh + [c["n"]])
    lo, hi = xp[..., :1], xp[..., -1:]
    u = r.uniform(0, 1, size=sh + [c["m"]])
    if c["mode"] in ("const", "out"):
        u = u * 1.6 - 0.3
    x = lo + u * (hi - lo)
    if c["mode"] == "nodes":
        x = np.take_along_axis(xp, r.randint(0, c["n"], size=sh + [c["m"]]), -1)
    inside = ((x >= lo) & (x <= hi)).all()
    # a parabola is not a good function for refusing: its modes are the constant and the polynomial one
    ext = {"const": "const", "in": "error" if c["kind"] == "linear" else "quadratic", "nodes": "error" if c["kind"] == "linear" else "const",
           "out": "error" if c["kind"] == "linear" and r.rand() < 0.5 else "linear" if c["kind"] == "linear" else "quadratic"}[c["mode"]]
    ax = c["dim"] % (len(sh) + 1)
    mv = lambda a: torch.tensor(np.ascontiguousarray(np.moveaxis(a, -1, ax)))
    args = mv(x), mv(xp), mv(fp)
    if ext == "error" and not inside:
        try:
            f(*args, dim=ax, extrapolate=ext)
        except ValueError:
            return [c["kind"], "refused"]
        raise AssertionError("points outside the range are not refused")
    got = np.moveaxis(N(f(*args, dim=ax, extrapolate=ext)), ax, -1)
    assert got.shape == x.shape, "shape"
    X, P, F, G = x.reshape(-1, c["m"]), xp.reshape(-1, c["n"]), fp.reshape(-1, c["n"]), got.reshape(-1, c["m"])
    for xs, p, y, g in zip(X, P, F, G):
        for v, w in zip(xs, g):
            if ext == "const" and (v < p[0] or v > p[-1]):
                cand = [y[0] if v < p[0] else y[-1]]
            else:
                i = min(max(int(np.searchsorted(p, v)), 1), c["n"] - 1)
                if c["kind"] == "linear":
                    cand = [y[i - 1] + (y[i] - y[i - 1]) * (v - p[i - 1]) / (p[i] - p[i - 1])]
                else:
                    cand = [parabola(v, p[s:s + 3], y[s:s + 3]) for s in (i - 2, i - 1) if 0 <= s <= c["n"] - 3]
            assert min(abs(w - q) for q in cand) < 1e-8 * (1 + max(abs(q) for q in cand)), "%s (%s): %g instead of %g" % (c["kind"], ext, w, cand[0])
    return [c["kind"], ext]


finish_module(globals())
