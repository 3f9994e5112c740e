"""C24 spherical harmonic transforms."""
import functools

import numpy as np
import torch

from vlib import gen, wig
from vlib.harness import finish_module, st, sub
from vlib.tu import N, close

from ebsdtorch.harmonics.sht import CSHT, RSHT, dltWeightsDH, grid_DriscollHealy, theta_phi_to_xyz, weightedDCST
from ebsdtorch.harmonics.wigner_d_logspace import csht_weights_half_pi, rsht_weights_half_pi

RULE = ("A case is a band limit 1-14 (sometimes up to 28), a batch of 1-3 signals (random coefficients, one harmonic, sparse, or samples that are not band limited), a precision "
        "and a memory layout; non-trivial when the band limit is at least 2.")
ASSUMPTIONS = ["orthonormal harmonics with the Condon-Shortley phase, from an eigen-decomposition independent of the library's recursion",
               "signals on the 2L x 2L Driscoll-Healy grid, azimuth first"]
CPU = torch.device("cpu")
CD = {"double": torch.complex128, "single": torch.complex64}
RD = {"double": torch.float64, "single": torch.float32}
TOL = {"double": 1e-12, "single": 2e-4}


@functools.lru_cache(maxsize=60)
def sht(kind, L, prec):
    return (CSHT if kind == "c" else RSHT)(L, CPU, prec)


@functools.lru_cache(maxsize=20)
def basis(L):
    """(2L-1, L, 2L, 2L) harmonics on the grid; zero where |m| > l"""
    k = np.arange(2 * L)
    th, ph = np.pi * k / L, np.pi * (2 * k + 1) / (4 * L)
    out = np.zeros((2 * L - 1, L, 2 * L, 2 * L), complex)
    for l in range(L):
        for m in range(-l, l + 1):
            out[m + L - 1, l] = wig.sph(l, m, th, ph)
    return out


@functools.lru_cache(maxsize=20)
def weights(L):
    """quadrature weights in polar angle, exact for polynomials of degree < 2L, by solving the moment equations"""
    k = np.arange(2 * L)
    x = np.cos(np.pi * (2 * k + 1) / (4 * L))
    A = np.polynomial.legendre.legvander(x, 2 * L - 1).T
    b = np.zeros(2 * L)
    b[0] = 2.0
    return np.linalg.solve(A, b) * np.pi / L


def coeffs(c, kind):
    """(B, 2L-1, L) complex; of a real signal when kind is 'r'"""
    L, B = c["L"], c["B"]
    r = gen.rng(c["seed"])
    P = r.randn(B, 2 * L - 1, L) + 1j * r.randn(B, 2 * L - 1, L)
    m = np.arange(-L + 1, L)[:, None]
    l = np.arange(L)[None]
    P[:, np.abs(m) > l] = 0
    if c["kind"] == "one":
        keep = np.zeros_like(P)
        for b in range(B):
            li = r.randint(L)
            keep[b, r.randint(-li, li + 1) + L - 1, li] = 1
        P = P * keep
    elif c["kind"] == "sparse":
        P = P * (r.rand(*P.shape) < 0.15)
    elif c["kind"] == "top":
        P[:, :, :L - 1] = 0
    if kind == "r":
        neg = (np.conj(P) * ((-1.0) ** np.abs(m)))[:, ::-1]
        P = np.where(m > 0, P, np.where(m < 0, neg, P.real))
    return P


def layout(t, mem):
    if mem == "strided":
        b = torch.zeros(tuple(s + 2 for s in t.shape), dtype=t.dtype)
        v = b[tuple(slice(1, s + 1) for s in t.shape)]
        v.copy_(t)
        return v
    if mem == "transposed":
        return t.transpose(1, 2).contiguous().transpose(1, 2)
    return t


BASE = {"L": gen.size(1, 14, 17, 24, 28, rare=25), "B": st.integers(1, 3), "seed": gen.seeds(), "prec": st.sampled_from(["double", "single"]),
        "kind": st.sampled_from(["dense", "dense", "one", "sparse", "top"]), "field": st.sampled_from(["r", "c"]),
        "mem": st.sampled_from(["plain", "plain", "strided", "transposed"])}
nt = lambda c: c["L"] >= 2


def scale(*xs):
    return max([1e-3] + [float(np.abs(x).max()) for x in xs])


@sub("synthesis", st.fixed_dictionaries(BASE), quick=200, thorough=8000, nontrivial=nt)
def _syn(c):
    """the inverse transform sums the harmonics, and the forward transform returns the coefficients"""
    L, k, p = c["L"], c["field"], c["prec"]
    P = coeffs(c, k)
    want = np.einsum("bml,mltp->btp", P, basis(L))
    Q = P if k == "c" else P[:, L - 1:]
    q = layout(torch.tensor(Q).to(CD[p]), c["mem"])
    keep = q.clone()
    got = sht(k, L, p).isht(q)
    assert torch.equal(q, keep), "coefficients modified"
    assert got.dtype == (CD[p] if k == "c" else RD[p]), got.dtype
    e = TOL[p] * scale(want, Q)
    close(got.numpy(), want if k == "c" else want.real, e, "isht")
    f = torch.tensor(want if k == "c" else want.real).to(CD[p] if k == "c" else RD[p])
    f = layout(f, c["mem"])
    keep = f.clone()
    back = sht(k, L, p).fsht(f)
    assert torch.equal(f, keep), "signal modified"
    close(back.numpy(), Q, e, "fsht")
    return [k, p, c["kind"], c["mem"], "odd" if L % 2 else "even"]


@sub("analysis", st.fixed_dictionaries(dict(BASE, signal=st.sampled_from(["noise", "spike", "steps"]))), quick=150, thorough=6000, nontrivial=nt)
def _ana(c):
    """the forward transform of any samples is the quadrature against each harmonic; real signals agree with the complex transform"""
    L, B, p = c["L"], c["B"], c["prec"]
    r = gen.rng(c["seed"])
    s = (B, 2 * L, 2 * L)
    f = r.randn(*s)
    if c["signal"] == "spike":
        f = np.zeros(s)
        f[:, r.randint(2 * L), r.randint(2 * L)] = 3.0
    elif c["signal"] == "steps":
        f = (f > 0.3) * 1.0
    z = f if c["field"] == "r" else f + 1j * r.permutation(f.ravel()).reshape(s)
    want = np.einsum("btp,mltp,p->bml", z, basis(L).conj(), weights(L))
    e = TOL[p] * scale(f)
    t = layout(torch.tensor(z).to(RD[p] if c["field"] == "r" else CD[p]), c["mem"])
    got = sht("c", L, p).fsht(t)
    close(got.numpy(), want, e, "complex fsht")
    if c["field"] == "r":
        close(sht("r", L, p).fsht(t).numpy(), want[:, L - 1:], e, "real fsht")
        i1, i2 = sht("c", L, p).isht(got), sht("r", L, p).isht(sht("r", L, p).fsht(t))
        close(i2.numpy(), i1.real.numpy(), 3 * e * L, "projection")
    return [c["signal"], c["field"], p]


@sub("batching", st.fixed_dictionaries({"L": gen.size(1, 10, 16, 21, rare=12), "size": st.one_of(st.integers(1, 40), st.integers(40, 400)), "kind": st.sampled_from(["r", "c"]),
                                        "prec": st.sampled_from(["double", "single"])}), quick=40, thorough=600, nontrivial=nt)
def _wts(c):
    """transform weights do not depend on the batch size used to build them"""
    f = csht_weights_half_pi if c["kind"] == "c" else rsht_weights_half_pi
    a = f(c["L"], CPU, c["prec"]).to_dense()
    b = f(c["L"], CPU, c["prec"], c["size"]).to_dense()
    assert a.dtype == RD[c["prec"]]
    close(N(b), N(a), 1e-12 if c["prec"] == "double" else 1e-5, "weights")
    return [c["kind"]]


@sub("grid", st.fixed_dictionaries({"L": st.integers(1, 60), "dt": st.sampled_from(["f64", "f32"])}), quick=40, thorough=400, nontrivial=nt)
def _grid(c):
    """the grid covers azimuth and polar angle evenly and maps to unit vectors"""
    L = c["L"]
    d = torch.float64 if c["dt"] == "f64" else torch.float32
    g = grid_DriscollHealy(L, d)
    k = np.arange(2 * L)
    th, ph = np.meshgrid(np.pi * k / L, np.pi * (2 * k + 1) / (4 * L), indexing="ij")
    e = 1e-12 if c["dt"] == "f64" else 2e-6
    close(N(g), np.stack([th, ph], -1), e, "grid")
    x = np.stack([np.cos(th) * np.sin(ph), np.sin(th) * np.sin(ph), np.cos(ph)], -1)
    close(N(theta_phi_to_xyz(g)), x, e, "vectors")
    return []


@sub("trigonometric", st.fixed_dictionaries({"L": st.integers(1, 24), "dt": st.sampled_from(["f64", "f32"]), "seed": gen.seeds()}), quick=60, thorough=600, nontrivial=nt)
def _trig(c):
    """quadrature weights that integrate polynomials, orthonormal cosine and sine layers, and their weighted adjoints"""
    L = c["L"]
    n = 2 * L
    d = torch.float64 if c["dt"] == "f64" else torch.float32
    e = 1e-11 if c["dt"] == "f64" else 3e-5
    w = dltWeightsDH(L, CPU, d)
    th = np.pi * (np.arange(n) + 0.5) / n
    P = np.polynomial.legendre.legvander(np.cos(th), n - 1)
    close(P.T @ N(w), 2.0 * (np.arange(n) == 0), 20 * e, "quadrature of Legendre polynomials")
    k = np.arange(n)
    C = np.cos(np.outer(th, k)) * np.where(k == 0, 1, 2 ** 0.5) / n ** 0.5
    S = np.sin(np.outer(th, k + 1)) * np.where(k == n - 1, 1, 2 ** 0.5) / n ** 0.5
    x = gen.rng(c["seed"]).randn(2, n)
    t = torch.tensor(x).to(d)
    for kind, want in (("ic", x @ C.T), ("is", x @ S.T), ("c", (x * N(w)) @ C), ("s", (x * N(w)) @ S)):
        lay = weightedDCST(L, kind, CPU, d)
        assert not any(p.requires_grad for p in lay.parameters())
        close(N(lay(t)), want, 20 * e, "layer " + kind)
    return [c["dt"]]


finish_module(globals())
