"""C30 dynamical diffraction: structure matrices and master patterns."""
import math

import numpy as np
import torch

from vlib import gen, hall, xtal
from vlib.harness import finish_module, st, sub
from vlib.tu import N, T

from checks.c27 import make
from checks.c28 import allowed
from checks.c29 import axial
from ebsdtorch.crystallography.diffraction import calc_helper_bloch_formalism, calc_helper_scatter_matrix, calc_lambda, calc_sg, calc_sgh
from ebsdtorch.crystallography.ebsd_master import calc_sg_batched, ebsd_master_pattern
from ebsdtorch.crystallography.kvectors import kvectors_grid
from ebsdtorch.crystallography.scattering_factors.scattering_factors_Hybrid import scatter_factor_hybrid
from ebsdtorch.crystallography.scattering_factors.scattering_factors_WK import scatter_factor_WK

RULE = ("A case is a crystal (space group, lattice, up to three sites), a resolution limit giving up to some sixty beams, voltages and depth weights; "
        "non-trivial when the crystal is not P1 with one atom and at least two reflections take part.")
ASSUMPTIONS = ["atomic scattering factors are those of the package (checked by C31); everything built from them is recomputed in double precision",
               "sign convention of the package: the coefficient between beams i and j is that of h_j - h_i, in the structure matrix and in the site sums alike",
               "depth bins up to and including the one that completes 95% of the weight are integrated, at most a hundred"]


def crystal(c, f32=False):
    """(cell, orbits [(Z, occupancy, DW, positions)], lattice vectors, dmin) or None when sites are crowded"""
    r = gen.rng(c["seed"])
    sg = c["sg"]
    abc, ang = xtal.lattice(sg, r)
    atoms, orb = [], []
    for kind in c["sites"]:
        for _ in range(40):
            x = xtal.site(r, kind)
            o = xtal.orbit(sg, 1, x)
            if not xtal.crowded(o):
                break
        else:
            x = xtal.site(r, "general")
            o = xtal.orbit(sg, 1, x)
            if xtal.crowded(o):
                continue
        z, occ, dw = int(r.choice([1, 6, 8, 13, 14, 22, 26, 28, 29, 47, 79])), float(r.choice([1.0, 1.0, 0.5, 0.25])), float(r.uniform(0.002, 0.012))
        atoms.append((z, *[float(v) for v in x], occ, dw))
        orb.append((z, occ, dw, np.array([[float(v) for v in p] for p in sorted(o)])))
    if not atoms:
        return None
    cell = make(abc, ang, sg, 1, atoms)
    G = np.linalg.inv(xtal.gram(abc, ang)[0])
    vol = 1 / math.sqrt(np.linalg.det(G))
    n_lat = len([1 for rr, t in hall.group(sg, 1) if rr == (1, 0, 0, 0, 1, 0, 0, 0, 1)])
    dmin = (4.19 * vol / (c["count"] * n_lat)) ** (1 / 3)
    dmin = max(dmin, max(abc) / 9)
    lim = [int(math.floor(x / dmin)) + 1 for x in abc]
    g = np.stack(np.meshgrid(*[np.arange(-m, m + 1) for m in lim], indexing="ij"), -1).reshape(-1, 3)
    g = g[(g != 0).any(1)]
    d = 1 / np.sqrt(np.einsum("ni,ij,nj->n", g, G, g))
    while (np.abs(d / dmin - 1) < 1e-4).any() or any(abs(x / dmin - round(x / dmin)) < 1e-4 for x in abc):
        dmin *= 1.00093
    h = g[(d > dmin) & allowed(sg, g)]
    if f32:
        cell = cell.set_fp_dtype(torch.float32)
    return cell, orb, (abc, ang, G, vol), dmin, h


def match(got, h):
    got = [tuple(x) for x in N(got).astype(int).tolist()]
    assert got[0] == (0, 0, 0), "the first beam is not the direct one"
    assert len(set(got)) == len(got) and set(got[1:]) == set(map(tuple, h.tolist())), "beams differ from the reflections inside the limit"
    return np.array(got)


SITES = st.lists(st.sampled_from(["special", "line", "plane", "general"]), min_size=1, max_size=3)
SG = st.one_of(st.integers(1, 230), st.sampled_from([1, 2, 5, 14, 19, 62, 82, 148, 152, 156, 161, 166, 167, 173, 186, 194, 216, 221, 225, 227, 229]))
CRY = {"sg": SG, "sites": SITES, "seed": gen.seeds(), "count": st.sampled_from([4, 15, 40, 70])}
VOLT = st.lists(st.sampled_from([8.0, 12.5, 20.0, 25.0, 30.0, 200.0]), min_size=1, max_size=3, unique=True)
nt = lambda c: c["count"] > 4 and (c["sg"] > 1 or len(c["sites"]) > 1)


@sub("wavelength", st.fixed_dictionaries({"seed": gen.seeds(), "shape": st.sampled_from([[], [4], [2, 3]]), "dtype": st.sampled_from(["f64", "f32"])}), quick=200, thorough=5000)
def _lam(c):
    """de Broglie wavelength, Lorentz factor and relativistic potential"""
    r = gen.rng(c["seed"])
    v = 10 ** r.uniform(0, 3.2, c["shape"])
    lam, gam, psi = (N(x) for x in calc_lambda(T(v, c["dtype"])))
    e, m, h, cc = 1.602176634e-19, 9.1093837015e-31, 6.62607015e-34, 299792458.0
    E = v * 1e3 * e
    for got, want in ((lam, h * cc / np.sqrt(E * (E + 2 * m * cc ** 2)) * 1e9), (gam, 1 + E / (m * cc ** 2)), (psi, v * 1e3 * (1 + E / (2 * m * cc ** 2)))):
        assert got.shape == v.shape and (np.abs(got / want - 1) < 2e-5).all(), "%s, not %s" % (got.tolist(), np.asarray(want).tolist())
    return ["ok"]


def sgh_ref(orb, hk, G):
    d = hk[None] - hk[:, None]
    s2 = np.einsum("abi,ij,abj->ab", d, G, d) / 4
    out = []
    for z, occ, dw, pos in orb:
        ph = np.exp(2j * math.pi * np.einsum("abi,pi->abp", d, pos)).sum(-1)
        out.append(z * z * occ * np.exp(-dw * s2) * ph)
    return np.array(out)


@sub("site_sums", st.fixed_dictionaries(dict(CRY, f32=st.booleans())), quick=120, thorough=4000, nontrivial=nt)
def _sgh(c):
    k = crystal(c, c["f32"])
    if k is None:
        return ["skipped"]
    cell, orb, (_, _, G, _), dmin, h = k
    got = calc_sgh(cell, dmin)
    hk = match(torch.cat([torch.zeros(1, 3, dtype=torch.int64), cell.get_reflections(dmin, False)]), h)
    want = sgh_ref(orb, hk, G)
    g = np.asarray(got.to(torch.complex128))
    assert g.shape == want.shape, "shape %s, expected %s" % (g.shape, want.shape)
    for i, (z, occ, _, pos) in enumerate(orb):
        lim = (1e-4 if c["f32"] else 2e-6) * z * z * occ * len(pos)
        assert np.abs(g[i] - want[i]).max() <= lim, "site %d: off by %.3g" % (i, np.abs(g[i] - want[i]).max())
    return ["%d beams" % (10 ** len(str(len(hk))))]


def fourier(orb, hk, lat, kv, opt):
    """(U + iU') between all pairs of beams, U'_0, wavelength, moduli and phases"""
    _, _, G, vol = lat
    d = (hk[None] - hk[:, None]).reshape(-1, 3)
    uq, inv = np.unique(d, axis=0, return_inverse=True)
    inv = inv.ravel()
    g = np.sqrt(np.einsum("ni,ij,nj->n", uq, G, uq))
    f = scatter_factor_WK if opt["factor"] == "WK" else scatter_factor_hybrid
    ff, gg = np.zeros(len(uq), complex), np.zeros(len(uq), complex)
    for z, occ, dw, pos in orb:
        u = 10 * math.sqrt(dw / (8 * math.pi ** 2))
        a = f(T(0.2 * math.pi * g), z, u, kv, include_core=opt["core"], include_phonon=opt["phonon"])[0, 0]
        ph = np.exp(-2j * math.pi * uq @ pos.T).sum(1)
        ff += ph * occ * N(a.real)
        gg += ph * occ * N(a.imag)
    pref = 0.04787801 / vol
    i0 = int(np.where((uq == 0).all(1))[0][0])
    if not opt["absorption"]:
        gg = gg * 0
    lam = 1.22642584554 / math.sqrt(pref * abs(ff[i0]) + kv * 1e3 * (1 + 0.00097847561649 * kv))
    k = pref * 0.664840340614319
    n = len(hk)
    return (k * ff)[inv].reshape(n, n), (k * gg)[inv].reshape(n, n), k * abs(gg[i0]), lam


OPT = {"core": st.booleans(), "phonon": st.booleans(), "absorption": st.sampled_from([True, True, False]), "factor": st.sampled_from(["WK", "WK", "Hybrid"])}


def call_opt(c):
    return dict(include_core=c["core"], include_phonon=c["phonon"], absorption=c["absorption"], scatter_factor=c["factor"])


@sub("potential", st.fixed_dictionaries(dict(CRY, kv=VOLT, **OPT)), quick=100, thorough=4000, nontrivial=nt)
def _ucg(c):
    """Fourier coefficients of the complex potential between every two beams, for every voltage"""
    k = crystal(c)
    if k is None:
        return ["skipped"]
    cell, orb, lat, dmin, h = k
    kv = torch.tensor(c["kv"], dtype=torch.float32)
    hkl, ucg, up, lam = calc_helper_bloch_formalism(cell, dmin, kv, **call_opt(c))
    hk = match(hkl, h)
    assert ucg.shape == (len(c["kv"]), len(hk), len(hk)) and up.shape == lam.shape == (len(c["kv"]),)
    for i, v in enumerate(c["kv"]):
        U, Up, u0, l0 = fourier(orb, hk, lat, v, c)
        w = U + 1j * Up
        d = np.abs(np.asarray(ucg[i].to(torch.complex128)) - w)
        lim = 3e-4 * np.abs(U).max() + 2e-3 * np.abs(Up).max()
        assert d.max() <= lim, "%g kV: coefficient of %s is off by %.3g of %.3g" % (v, (hk[d.argmax() % len(hk)] - hk[d.argmax() // len(hk)]).tolist(), d.max(), np.abs(U).max())
        assert abs(up[i].item() - u0) <= 3e-3 * u0 + 1e-12, "mean absorption %r, not %r" % (up[i].item(), u0)
        assert abs(lam[i].item() / l0 - 1) < 1e-5
    return [c["factor"], "absorbing" if c["absorption"] else "elastic"]


@sub("scattering_matrix", st.fixed_dictionaries(dict(CRY, kv=VOLT, shift=st.booleans(), **OPT)), quick=100, thorough=4000, nontrivial=nt)
def _qg(c):
    """inverse extinction distances 1/q_g = wavelength x potential coefficient, with or without the phase of the potential"""
    k = crystal(c)
    if k is None:
        return ["skipped"]
    cell, orb, lat, dmin, h = k
    hkl, q, x0, lam = calc_helper_scatter_matrix(cell, dmin, torch.tensor(c["kv"], dtype=torch.float32), apply_qg_shift=c["shift"], **call_opt(c))
    hk = match(hkl, h)
    for i, v in enumerate(c["kv"]):
        U, Up, u0, l0 = fourier(orb, hk, lat, v, c)
        w = l0 * (U + 1j * Up)
        ok = np.abs(U) > 1e-3 * np.abs(U).max()  # the phase of a vanishing coefficient is arbitrary
        ph = np.exp(-1j * np.angle(U))
        if c["shift"]:
            ok = np.ones_like(ok)
        else:
            w = w * ph
        got = np.asarray(q[i].to(torch.complex128))
        lim = 3e-4 * np.abs(l0 * U).max() + 2e-3 * np.abs(l0 * Up).max() + 2e-8
        if not c["shift"]:
            lim = lim + 4e-4 * np.abs(U).max() / np.maximum(np.abs(U), 1e-30) * np.abs(l0 * Up)
        d = np.where(ok, np.abs(got - w) / lim, 0)
        assert d.max() <= 1, "%g kV, shift %s: coefficient of %s: %s, not %s" % (
            v, c["shift"], (hk[d.argmax() % len(hk)] - hk[d.argmax() // len(hk)]).tolist(), got.ravel()[d.argmax()], w.ravel()[d.argmax()])
        if c["absorption"] and u0 > 0:
            assert abs(x0[i].item() * l0 * u0 - 1) < 3e-3, "absorption length %r, not %r" % (x0[i].item(), 1 / (l0 * u0))
        else:
            assert x0[i].item() >= 1e6
        assert abs(lam[i].item() / l0 - 1) < 1e-5
    return ["shift" if c["shift"] else "no shift"]


@sub("excitation", st.fixed_dictionaries({"sg": SG, "seed": gen.seeds(), "n": st.integers(1, 5), "m": st.integers(1, 5), "kv": st.sampled_from([10.0, 20.0, 200.0])}), quick=200, thorough=8000,
     nontrivial=lambda c: c["n"] > 1)
def _sg(c):
    """distance from each reciprocal lattice point to the Ewald sphere along the beam"""
    r = gen.rng(c["seed"])
    abc, ang = xtal.lattice(c["sg"], r)
    cell = make(abc, ang, c["sg"])
    lam = calc_lambda(T([c["kv"]]))[0].item()
    B = np.linalg.inv(xtal.basis(abc, ang)).T  # reciprocal basis as columns
    k = r.randn(c["n"], 3)
    k = k / np.linalg.norm(k, axis=1, keepdims=True) / lam
    kr = np.linalg.solve(B, k.T).T
    g = r.randint(-6, 7, (c["m"], 3))
    gc = (B @ g.T).T
    kk, ggc = k[:, None], gc[None]
    num = -(ggc * (2 * kk + ggc)).sum(-1)
    den = 2 * ((kk + ggc) * kk).sum(-1) * lam
    want = num / den
    lim = 1e-9 * (1 + np.abs(want))
    a = N(calc_sg(cell, torch.tensor(g)[None], T(kr)[:, None]))
    b = N(calc_sg_batched(cell.rmt.double(), torch.tensor(g)[None].double(), T(kr)[:, None]))
    for got, nm in ((a, "calc_sg"), (b, "calc_sg_batched")):
        assert got.shape == want.shape and (np.abs(got - want) <= lim).all(), "%s: %s, not %s" % (nm, got.tolist(), want.tolist())
    # the point shifted by the excitation error along the beam lies on the sphere, to first order in the error
    s = want[..., None] * kk * lam
    miss = np.abs(np.linalg.norm(kk + ggc + s, axis=-1) - 1 / lam) * lam
    small = np.abs(want) * lam < 1e-3
    assert (miss[small] < 1e-5 + (want[small] * lam) ** 2 + (np.abs(want[small]) * np.linalg.norm(ggc, axis=-1).max() * lam ** 2)).all()
    return ["ok"]


# ---- master pattern
def master_ref(orb, lat, hk, kdirs, kv, depth, w, opt):
    """pattern of every site at every direction, in double precision"""
    abc, ang, G, _ = lat
    S = sgh_ref(orb, hk, G)
    B = np.linalg.inv(xtal.basis(abc, ang)).T
    gc = (B @ hk.T).T
    out = []
    w = w / w.sum()
    for v, volt in enumerate(kv):
        U, Up, u0, lam = fourier(orb, hk, lat, volt, opt)
        V = U + 1j * Up
        np.fill_diagonal(V, 0)
        k = kdirs / lam
        s = -(gc[None] * (2 * k[:, None] + gc[None])).sum(-1) / (2 * ((k[:, None] + gc[None]) * k[:, None]).sum(-1) * lam)
        s[:, 0] = 0
        cum = np.cumsum(w[v] / w[v].sum())
        last = min(int(np.argmax(cum >= 0.95)) + 1, 100)
        I = np.zeros((len(orb), len(k)))
        for n in range(len(k)):
            A = 1j * math.pi * lam * depth * (V + np.diag(2 * s[n] / lam + 1j * u0))
            E = torch.matrix_exp(torch.tensor(A)).numpy()
            psi = np.zeros(len(hk), complex)
            psi[0] = 1
            L = np.zeros((len(hk), len(hk)), complex)
            for d in range(last):
                psi = E @ psi
                L += w[v, d] * np.outer(psi, psi.conj())
            I[:, n] = (S * L[None]).real.sum((1, 2))
        out.append(I)
    return np.array(out)


def weights(c, r):
    w = r.gamma(1.0, 1.0, (len(c["kv"]), c["bins"])) * np.exp(-np.arange(c["bins"]) / (c["bins"] / 3))
    if c["peak"]:
        w[:, 0] += 30 * w.sum(1)
    # keep the cumulative weight off the 95% tie
    for row in w:
        while (np.abs(np.cumsum(row / row.sum()) - 0.95) < 1e-4).any():
            row[0] *= 1.003
    return w


MAS = dict(CRY, kv=st.lists(st.sampled_from([10.0, 15.0, 20.0, 30.0]), min_size=1, max_size=3, unique=True), n=st.integers(1, 3), chunk=st.sampled_from([1, 2, 7, 100]), bins=st.sampled_from([1, 2, 5, 12, 12, 85, 130]),
           peak=st.booleans(), depth=st.sampled_from([0.5, 1.0, 2.0]), core=st.booleans(), phonon=st.booleans(), absorption=st.sampled_from([True, True, False]), factor=st.sampled_from(["WK", "WK", "Hybrid"]))
MAS["count"] = st.sampled_from([4, 12, 25, 50])


def master(cell, c, w, dmin, n=None, kv=None, chunk=None):
    t = torch.tensor(w, dtype=torch.float32)
    keep = t.clone()
    out = ebsd_master_pattern(cell, torch.tensor(kv or c["kv"], dtype=torch.float32), c["depth"], t, dmin, k_chunk_size=chunk or c["chunk"], grid_half_width=n or c["n"],
                              include_core=c["core"], include_phonon=c["phonon"], absorption=c["absorption"], scatter_factor=c["factor"])
    assert torch.equal(t, keep), "the weights of the caller changed"
    return np.asarray(out.double())


@sub("pattern", st.fixed_dictionaries(MAS), quick=90, thorough=1500, nontrivial=nt, budget=40)
def _mas(c):
    """intensity of every site, direction and voltage against a double-precision integration"""
    k = crystal(c, True)
    if k is None or len(k[4]) > 90:
        return ["skipped"]
    cell, orb, lat, dmin, h = k
    w = weights(c, gen.rng(c["seed"] + 5))
    got = master(cell, c, w, dmin)
    hk = match(torch.cat([torch.zeros(1, 3, dtype=torch.int64), cell.get_reflections(dmin, False)]), h)
    kd = N(kvectors_grid(cell, c["n"])[0])
    kd = kd / np.linalg.norm(kd, axis=1, keepdims=True)
    assert got.shape == (len(c["kv"]), len(orb), len(kd)), "shape %s" % (got.shape,)
    pick = gen.rng(c["seed"]).permutation(len(kd))[:8]
    want = master_ref(orb, lat, hk, kd[pick], c["kv"], c["depth"], w, c)
    for v in range(len(c["kv"])):
        for s in range(len(orb)):
            lim = 4e-3 * np.abs(want[v, s]).max() + 1e-12
            d = np.abs(got[v, s][pick] - want[v, s])
            assert d.max() <= lim, "%g kV, site %d, direction %s: %r, not %r" % (c["kv"][v], s, kd[pick[d.argmax()]].tolist(), got[v, s][pick[d.argmax()]], want[v, s, d.argmax()])
    return ["%d beams" % (10 * (len(hk) // 10)), "first bin" if c["peak"] else "spread"]


@sub("pieces", st.fixed_dictionaries(MAS), quick=50, thorough=1000, nontrivial=nt, budget=40)
def _pieces(c):
    """the pattern depends on neither the chunk size nor the other voltages, and weights may be scaled"""
    k = crystal(c, True)
    if k is None or len(k[4]) > 90:
        return ["skipped"]
    cell, orb, lat, dmin, h = k
    r = gen.rng(c["seed"] + 5)
    w = weights(c, r)
    a = master(cell, c, w, dmin)
    b = master(cell, c, w * 7.5, dmin, chunk=int(r.randint(1, 9)))
    assert np.abs(a - b).max() <= 2e-4 * np.abs(a).max(), "chunks or scaled weights change the pattern by %.3g" % (np.abs(a - b).max() / np.abs(a).max())
    v = int(r.randint(len(c["kv"])))
    one = master(cell, c, w[v:v + 1], dmin, kv=[c["kv"][v]])[0] * (w[v].sum() / w.sum())
    assert np.abs(a[v] - one).max() <= 2e-4 * np.abs(one).max(), "%g kV among others differs from the voltage alone by %.3g" % (c["kv"][v], np.abs(a[v] - one).max() / np.abs(one).max())
    return ["V%d" % len(c["kv"])]


@sub("expansion", st.fixed_dictionaries(dict(MAS, move=st.booleans(), sg=st.one_of(st.integers(1, 142), st.integers(195, 230)))), quick=50, thorough=1000, nontrivial=nt, budget=40)
def _exp(c):
    """listing every atom of the cell one by one, or moving the origin, gives the same pattern"""
    k = crystal(dict(c, sites=c["sites"][:2]), True)
    if k is None or len(k[4]) > 90 or sum(len(o[3]) for o in k[1]) > 24:
        return ["skipped"]
    cell, orb, (abc, ang, G, vol), dmin, h = k
    h1 = [x for x in h.tolist()]
    w = weights(c, gen.rng(c["seed"] + 5))
    a = master(cell, c, w, dmin)
    ka, ija = kvectors_grid(cell, c["n"])
    sh = gen.rng(c["seed"] + 9).rand(3) if c["move"] else np.zeros(3)
    n_lat = len([1 for rr, t in hall.group(c["sg"], 1) if rr == (1, 0, 0, 0, 1, 0, 0, 0, 1)])
    if n_lat > 1:
        return ["centred"]  # a primitive listing of a centred cell lists more (extinct) beams
    atoms = [(z, *((p + sh) % 1).tolist(), occ, dw) for z, occ, dw, pos in orb for p in pos]
    p1 = make(abc, ang, 1, 1, atoms).set_fp_dtype(torch.float32)
    b = master(p1, c, w, dmin)
    kb, ijb = kvectors_grid(p1, c["n"])
    at = {tuple(x): i for i, x in enumerate(N(ijb).astype(int).tolist())}
    idx = [at[tuple(x)] for x in N(ija).astype(int).tolist()]
    e = np.cumsum([0] + [len(o[3]) for o in orb])
    for s in range(len(orb)):
        got = b[:, e[s]:e[s + 1]].sum(1)[:, idx]
        d = np.abs(got - a[:, s]).max() / np.abs(a[:, s]).max()
        assert d <= 3e-3, "site %d: atoms listed one by one give a pattern that differs by %.3g" % (s, d)
    # and that pattern has the symmetry of the point group
    for p, q, u, v, f in axial(c["sg"]):
        ij = N(ijb).astype(int)
        im = np.stack([p * ij[:, 0] + q * ij[:, 1], u * ij[:, 0] + v * ij[:, 1], f * ij[:, 2]], 1)
        j = [at[tuple(x)] for x in im.tolist()]
        for s in range(len(orb)):
            tot = b[:, e[s]:e[s + 1]].sum(1)
            d = np.abs(tot - tot[:, j]).max() / np.abs(tot).max()
            assert d <= 3e-3, "pattern differs by %.3g from its image under a symmetry of the crystal" % d
    return ["moved" if c["move"] else "listed", "P"]


finish_module(globals())
