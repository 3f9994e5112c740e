"""C25 cross-correlation over SO(3)."""
import functools
import math

import numpy as np
import torch

from checks import c24
from vlib import gen, wig
from vlib.harness import finish_module, st, sub
from vlib.tu import close

from ebsdtorch.harmonics.sht_cc import cs2cc_, rs2cc_, rs2cc_fast_
from ebsdtorch.harmonics.wigner_d_logspace import read_lmn_wigner_d_half_pi_table, wigner_d_eq_half_pi

RULE = ("A case is a band limit 1-6 (7-20 at sampled rotations) and two batches (equal sizes, or one of size one) of coefficients of real or complex functions (dense, one harmonic, sparse, "
        "top degree only), the second random or a rotation of the first; non-trivial when the band limit is at least 2.")
ASSUMPTIONS = ["grid index (a, b, c) stands for Euler angles (pi/2 - s a, pi - s b, pi/2 - s c), s = 2 pi / (2B - 1), the convention of the documented formula",
               "the correlation volume is single precision by design"]
CPU = torch.device("cpu")


def expected(f, g, B):
    """sum_lmn f_lm conj(g_ln) D^l_mn at every grid rotation: (2B-1,)^3"""
    n = 2 * B - 1
    s = 2 * math.pi / n
    out = np.zeros((n, n, n), complex)
    for b in range(n):
        for l in range(B):
            d = wig.small_d(l, math.pi - s * b)
            m = np.arange(-l, l + 1)
            e = np.exp(-1j * np.outer(m, math.pi / 2 - s * np.arange(n)))
            out[:, b] += np.einsum("m,n,ma,mn,nc->ac", f[m + B - 1, l], np.conj(g[m + B - 1, l]), e, d, e)
    return out


@functools.lru_cache(maxsize=20)
def full_table(B, extra):
    t = wigner_d_eq_half_pi(B - 1 + extra, torch.float32, CPU)
    l, m, k = torch.meshgrid(torch.arange(B), torch.arange(-B + 1, B), torch.arange(-B + 1, B), indexing="ij")
    ok = (m.abs() <= l) & (k.abs() <= l)
    d = torch.zeros(B, 2 * B - 1, 2 * B - 1)
    d[ok] = read_lmn_wigner_d_half_pi_table(t, torch.stack([l[ok], m[ok], k[ok]], -1))
    return t, d.to(torch.complex64)


@st.composite
def pairs(draw):
    b = draw(st.integers(1, 3))
    nb = draw(st.sampled_from([(b, b), (b, b), (1, b), (b, 1)]))
    return {"L": draw(st.integers(1, 6)), "nf": nb[0], "ng": nb[1], "kf": draw(st.sampled_from(["dense", "dense", "one", "sparse", "top"])),
            "kg": draw(st.sampled_from(["dense", "one", "sparse", "top", "rotated"])), "seed": draw(gen.seeds()), "extra": draw(st.integers(0, 3)),
            "field": draw(st.sampled_from(["r", "r", "c"])), "rot": [draw(st.integers(0, 10)) for _ in range(3)]}


def data(c):
    f = c24.coeffs({"L": c["L"], "B": c["nf"], "seed": c["seed"], "kind": c["kf"]}, c["field"])
    if c["kg"] != "rotated":
        return f, c24.coeffs({"L": c["L"], "B": c["ng"], "seed": c["seed"] + 1, "kind": c["kg"]}, c["field"])
    B = c["L"]
    n = 2 * B - 1
    a = [x % n for x in c["rot"]]
    s = 2 * math.pi / n
    g = np.zeros((c["ng"], n, B), complex)
    for l in range(B):
        m = np.arange(-l, l + 1)
        D = wig.big_d(l, math.pi / 2 - s * a[0], math.pi - s * a[1], math.pi / 2 - s * a[2])
        for i in range(c["ng"]):
            g[i][m + B - 1, l] = D.T @ f[i % c["nf"]][m + B - 1, l]
    return f, g


@sub("volume", pairs(), quick=120, thorough=4000, nontrivial=lambda c: c["L"] >= 2)
def _vol(c):
    """every implementation gives the inner product of one function with each rotation of the other"""
    B = c["L"]
    f, g = data(c)
    n = max(c["nf"], c["ng"])
    want = np.stack([expected(f[i % c["nf"]], g[i % c["ng"]], B) for i in range(n)])
    t, full = full_table(B, c["extra"])
    e = 3e-6 * B * max(1e-3, float((np.sqrt((abs(f) ** 2).sum((1, 2))).max() * np.sqrt((abs(g) ** 2).sum((1, 2))).max())))
    q = lambda x, k: torch.tensor(x if k == "c" else x[:, B - 1:]).to(torch.complex64)
    fc, gc = q(f, "c"), q(g, "c")
    keep = fc.clone(), gc.clone()
    got = cs2cc_(B, fc, gc, t)
    close(got.numpy(), np.abs(want), e, "cs2cc_")
    assert torch.equal(fc, keep[0]) and torch.equal(gc, keep[1])
    if c["field"] == "r":
        fr, gr = q(f, "r"), q(g, "r")
        keep = fr.clone(), gr.clone()
        close(rs2cc_(B, fr, gr, t).numpy(), want.real, e, "rs2cc_")
        close(rs2cc_fast_(B, fr, gr, full).numpy(), want.real, e, "rs2cc_fast_")
        assert torch.equal(fr, keep[0]) and torch.equal(gr, keep[1])
    if c["kg"] == "rotated" and c["kf"] == "dense":
        s = tuple(x % (2 * B - 1) for x in c["rot"])
        top = float(got[0][s])
        assert abs(top - (abs(f[0]) ** 2).sum()) < 10 * e, "autocorrelation peak %g" % top
        assert top >= float(got[0].max()) - 10 * e
    return [c["field"], c["kg"], "broadcast" if c["nf"] != c["ng"] else "paired"]


@st.composite
def larger(draw):
    return dict(draw(pairs()), L=draw(st.integers(7, 20)), nf=1, ng=1, pts=40)


@sub("larger", larger(), quick=30, thorough=600, nontrivial=lambda c: c["kf"] != "one")
def _lar(c):
    """the same for larger band limits, at sampled grid rotations"""
    B = c["L"]
    n = 2 * B - 1
    f, g = data(c)
    s = 2 * math.pi / n
    r = gen.rng(c["seed"] + 7)
    at = np.concatenate([r.randint(n, size=(c["pts"], 3)), [[x % n for x in c["rot"]]]])
    want = np.zeros(len(at), complex)
    for l in range(B):
        m = np.arange(-l, l + 1)
        x, y = f[0][m + B - 1, l], np.conj(g[0][m + B - 1, l])
        for i, (a, b, k) in enumerate(at):
            want[i] += (x * np.exp(-1j * m * (math.pi / 2 - s * a))) @ wig.small_d(l, math.pi - s * b) @ (y * np.exp(-1j * m * (math.pi / 2 - s * k)))
    t, full = full_table(B, c["extra"])
    e = 3e-6 * B * max(1e-3, float((np.sqrt((abs(f) ** 2).sum((1, 2))).max() * np.sqrt((abs(g) ** 2).sum((1, 2))).max())))
    q = lambda x, k: torch.tensor(x if k == "c" else x[:, B - 1:]).to(torch.complex64)
    ix = tuple(at.T)
    close(cs2cc_(B, q(f, "c"), q(g, "c"), t).numpy()[0][ix], np.abs(want), e, "cs2cc_")
    if c["field"] == "r":
        close(rs2cc_(B, q(f, "r"), q(g, "r"), t).numpy()[0][ix], want.real, e, "rs2cc_")
        close(rs2cc_fast_(B, q(f, "r"), q(g, "r"), full).numpy()[0][ix], want.real, e, "rs2cc_fast_")
    return [c["field"], c["kg"]]


@sub("mismatch", st.fixed_dictionaries({"a": st.integers(2, 4), "d": st.integers(1, 3)}), quick=10, nontrivial=lambda c: True)
def _mis(c):
    """batches that do not broadcast are refused"""
    t, full = full_table(3, 0)
    z = lambda k: torch.zeros(k, 3, 3, dtype=torch.complex64)
    y = lambda k: torch.zeros(k, 5, 3, dtype=torch.complex64)
    for f, a, b, w in ((rs2cc_, z(c["a"]), z(c["a"] + c["d"]), t), (rs2cc_fast_, z(c["a"]), z(c["a"] + c["d"]), full),
                       (cs2cc_, y(c["a"]), y(c["a"] + c["d"]), t)):
        try:
            f(3, a, b, w)
        except Exception:
            continue
        raise AssertionError("accepted batches of %d and %d" % (c["a"], c["a"] + c["d"]))
    return []


finish_module(globals())
