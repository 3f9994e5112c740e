"""C23 Wigner d tables."""
import math

import numpy as np
import torch

from vlib import batch, gen, wig
from vlib.harness import finish_module, st, sub
from vlib.tu import DT, N, close

from ebsdtorch.harmonics import wigner_d_logspace as W
from ebsdtorch.harmonics import wigner_d_xnum as X

RULE = ("A case is an angle in [0, pi] (uniform, within 10^-k of 0, pi/2 or pi, or a rational multiple of pi), a maximum degree and an "
        "implementation; or a block of (l, m, n) indices. Non-trivial when the maximum degree is at least 2.")
ASSUMPTIONS = ["reference: dense eigen-decomposition of J_y in double precision, all degrees at low band limits, the three highest at high ones",
               "the log-space tables carry the rounding of powers of sin and cos of half the angle: single-precision tolerance grows with degree * |log|"]
CPU = torch.device("cpu")


@st.composite
def angle(draw, lo=0.0, hi=math.pi):
    k = draw(st.integers(0, 3))
    if k == 0:
        b = draw(st.floats(lo, hi))
    elif k == 1:
        b = draw(st.integers(0, 24)) * math.pi / 24
    elif k == 2:
        b = draw(st.sampled_from([0.0, math.pi / 2, math.pi])) + draw(st.sampled_from([-1, 0, 1])) * 10.0 ** draw(st.floats(-9, -1))
    else:
        b = draw(st.sampled_from([0.0, math.pi / 2, math.pi]))
    return min(max(b, lo), hi)


def logs(b):
    return max(abs(math.log(max(math.sin(b / 2), 1e-300))), abs(math.log(max(math.cos(b / 2), 1e-300)))) if 0 < b < math.pi else 40.0


def compute(impl, b, L, dt):
    if impl == "xnum":
        return X.wigner_d_xnum(torch.tensor(b, dtype=torch.float64), L, CPU)
    if b == math.pi / 2:
        return W.wigner_d_eq_half_pi(L, DT[dt], CPU)
    f = W.wigner_d_lt_half_pi if b < math.pi / 2 else W.wigner_d_gt_half_pi
    return f(b, L, DT[dt], CPU)


def offset(l):
    return l * (l + 1) * (l + 2) // 6


def tol(impl, b, L, dt):
    u = 6e-8 if impl == "log" and dt == "f32" else 1.2e-16
    return u * (200 + 40 * L + 20 * L * min(logs(b), 40.0))


def compare(c, degrees):
    b, L = c["beta"], c["L"]
    t = compute(c["impl"], b, L, c["dt"])
    assert t.shape == (offset(L + 1),), "table of shape %s" % (tuple(t.shape),)
    assert t.dtype == (torch.float64 if c["impl"] == "xnum" else DT[c["dt"]])
    t = N(t)
    e = tol(c["impl"], b, L, c["dt"])
    for l, v in wig.table(b, L, degrees).items():
        close(t[offset(l):offset(l + 1)], v, e, "d^%d at beta %.17g" % (l, b))
    return [c["impl"], c["dt"], "lt" if b < math.pi / 2 else "eq" if b == math.pi / 2 else "gt"]


@sub("all_degrees", st.fixed_dictionaries({"beta": angle(), "L": st.integers(0, 24), "impl": st.sampled_from(["log", "log", "xnum"]),
                                           "dt": st.sampled_from(["f64", "f64", "f32"])}),
     quick=150, thorough=6000, nontrivial=lambda c: c["L"] >= 2)
def _all(c):
    """every entry of a table equals the Wigner function"""
    return compare(c, None)


@sub("high_degrees", st.fixed_dictionaries({"beta": angle(0.02, math.pi - 0.02), "L": st.integers(100, 330), "impl": st.sampled_from(["log", "xnum", "xnum"]),
                                            "dt": st.sampled_from(["f64", "f64", "f32"])}),
     quick=14, thorough=400, shards=4, budget=400)
def _high(c):
    """the recursion stays accurate to high degree, through seeds as small as 1e-200"""
    L = c["L"]
    return compare(c, sorted({L, L - 1, 2 * L // 3}))


@sub("signed", st.fixed_dictionaries({"l": st.integers(0, 20), "extra": st.integers(0, 3), "dt": st.sampled_from(["f64", "f32"]), "swap": st.booleans(),
                                      "fn": st.sampled_from(["lmn", "mn", "xnum"]), "seed": gen.seeds(), "form": st.sampled_from(["grid", "list"]),
                                      "int": st.sampled_from([torch.int32, torch.int64]).map(lambda x: str(x)[6:])}),
     quick=150, thorough=4000, nontrivial=lambda c: c["l"] >= 1)
def _signed(c):
    """look-ups at pi/2 of every sign and order of m and n"""
    l, L = c["l"], c["l"] + c["extra"]
    dt = "f64" if c["fn"] == "xnum" else c["dt"]
    t = X.wigner_d_xnum(torch.tensor(math.pi / 2, dtype=torch.float64), L, CPU) if c["fn"] == "xnum" else W.wigner_d_eq_half_pi(L, DT[dt], CPU)
    d = wig.small_d(l, math.pi / 2)
    want = d if c["swap"] else d.T
    it = getattr(torch, c["int"])
    r = gen.rng(c["seed"])
    if c["form"] == "grid":
        m, n = np.meshgrid(np.arange(-l, l + 1), np.arange(-l, l + 1), indexing="ij")
    else:
        m, n = r.randint(-l, l + 1, 7), r.randint(-l, l + 1, 7)
    mt, nt = torch.tensor(m, dtype=it), torch.tensor(n, dtype=it)
    if c["fn"] == "mn":
        got = W.read_mn_wigner_d_half_pi_table(t, mt, nt, l, c["swap"])
    else:
        f = X.retrieve_wigner_d if c["fn"] == "xnum" else W.read_lmn_wigner_d_half_pi_table
        got = f(t, torch.stack([torch.full_like(mt, l), mt, nt], -1), c["swap"])
    close(N(got), want[m + l, n + l], tol("xnum" if c["fn"] == "xnum" else "log", math.pi / 2, L, dt), "d^%d" % l)
    return [c["fn"], c["dt"]]


@sub("index", st.fixed_dictionaries({"l": st.one_of(st.integers(0, 30), st.integers(0, 1400)), "seed": gen.seeds(), "mod": st.sampled_from(["log", "xnum"])}),
     quick=150, thorough=5000, nontrivial=lambda c: c["l"] >= 2)
def _index(c):
    """tables are packed without gaps, and positions convert back to degrees and orders"""
    l = c["l"]
    r = gen.rng(c["seed"])
    ls = np.concatenate([[l] * 8, np.maximum(0, l - r.randint(0, 3, 8)), r.randint(0, l + 1, 16)])
    ms = np.array([r.choice([0, k, r.randint(0, k + 1)]) for k in ls])
    ns = np.array([r.choice([0, k, r.randint(0, k + 1)]) for k in ms])
    co = torch.tensor(np.stack([ls, ms, ns], -1), dtype=torch.int64)
    f = W.index_from_coords if c["mod"] == "log" else X.index_from_coords
    ix = f(co)
    want = ls * (ls + 1) * (ls + 2) // 6 + ms * (ms + 1) // 2 + ns
    assert ix.tolist() == want.tolist(), "index of %r" % (co.tolist(),)
    back = W.coords_from_index(ix)
    assert back.tolist() == co.tolist(), "coordinates of %r: %r" % (ix.tolist(), back.tolist())
    lo = offset(l)
    rng_ = torch.arange(lo, lo + min(l * (l + 1) // 2 + l + 1, 2000))
    back = W.coords_from_index(rng_)
    assert (f(back) == rng_).all() and (back[:, 0] == l).all() and (back[:, 1] <= l).all() and (back[:, 2] <= back[:, 1]).all() and (back >= 0).all()
    if l < 700:
        assert (f(co.int()).long() == ix).all()
    return [c["mod"], "large" if l > 100 else "small"]


# the batch law for packed positions and look-ups
def _lmn(r, n):
    m = np.sort(r.randint(0, 41, (n, 3)), -1)[:, ::-1]
    return [m.astype(float)]


def _signed(r, n):
    l = r.randint(0, 41, n)
    return [np.stack([l, r.randint(-l, l + 1), r.randint(-l, l + 1)], -1).astype(float)]


_HALF = W.wigner_d_eq_half_pi(41, torch.float64, CPU)
batch.add({
    "index_from_coords": {"fn": lambda c: W.index_from_coords(c.long()), "make": _lmn, "dt": ["f64"], "grad": False},
    "coords_from_index": {"lo": 1, "fn": lambda i: W.coords_from_index(i.long()), "make": lambda r, n: [r.randint(0, 10 ** 6, n).astype(float)], "dt": ["f64"], "grad": False},
    "read_lmn_wigner_d_half_pi_table": {"fn": lambda c, s: W.read_lmn_wigner_d_half_pi_table(_HALF, c.long(), s), "make": _signed, "opts": [False, True], "dt": ["f64"], "grad": False},
}, quick=150)


finish_module(globals())
