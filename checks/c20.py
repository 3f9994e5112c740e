"""C20 non-local pattern averaging."""
import numpy as np
import torch

from vlib import gen
from vlib.harness import finish_module, st, sub
from vlib.tu import N, T, close

from ebsdtorch.preprocessing.nlpar import nlpar

RULE = ("A case is a scan of 1-7 x 1-7 patterns of 1-6 x 1-6 pixels (one or several grains plus noise from none to stronger than the signal, an offset "
        "and a scale), a window radius 1-3, a target centre weight and a bias; non-trivial when the scan has more than one pattern and is noisy.")
ASSUMPTIONS = ["reference in float64 NumPy: noise from the nearest of the (up to) eight neighbours inside the scan, weights "
               "exp(-max(d, 0) / lambda^2) over the window inside the scan, lambda such that the mean centre weight of the 3x3 windows is the target",
               "the reference is compared where the target is at least 0.02 from the attainable limits; elsewhere only the bounds are asserted"]


@st.composite
def scans(draw):
    return {"H": draw(gen.size(1, 7, 11, 17)), "W": draw(gen.size(1, 7, 12, 16)), "h": draw(gen.size(1, 6, 15)), "w": draw(gen.size(1, 6, 20)),
            "k": draw(st.sampled_from([1, 1, 2, 3])), "coeff": draw(st.sampled_from([0.15, 0.25, 0.375, 0.5, 0.6, 0.8])),
            "bias": draw(st.sampled_from([0.0, 0.0, 0.0, 0.7, 3.0])), "noise": draw(st.sampled_from([0.0, 0.01, 0.1, 0.1, 1.0, 5.0])),
            "grains": draw(st.integers(1, 3)), "offset": draw(st.sampled_from([0.0, 0.0, 3.0, -20.0])),
            "scale": draw(st.sampled_from([1.0, 1.0, 1e-2, 255.0])), "dtype": draw(st.sampled_from(["f32", "f32", "f64"])), "seed": draw(gen.seeds())}


def make(c):
    r = gen.rng(c["seed"])
    base = r.rand(c["grains"], c["h"], c["w"])
    lab = r.randint(c["grains"], size=(c["H"], c["W"]))
    if c["grains"] > 1 and c["seed"] % 2:
        lab = np.sort(lab, axis=1)
    d = (base[lab] + c["noise"] * r.randn(c["H"], c["W"], c["h"], c["w"])) * c["scale"] + c["offset"]
    return np.array(N(T(d, c["dtype"])), dtype=np.float64)


def reference(d, k, coeff, bias):
    """(output, low, high): the denoised scan, and the attainable range of the mean centre weight"""
    H, W, n = d.shape[0], d.shape[1], d.shape[2] * d.shape[3]
    f = d.reshape(H * W, -1)
    D = ((f[:, None] - f[None]) ** 2).sum(-1)
    I, J = [v.ravel() for v in np.meshgrid(range(H), range(W), indexing="ij")]
    cheb = np.maximum(abs(I[:, None] - I), abs(J[:, None] - J))
    nn = cheb == 1
    s2 = np.where(nn, D, np.inf).min(1) / (2 * n)
    s2 = np.where(np.isinf(s2), 0, s2)
    s = s2[:, None] + s2
    z = (D - n * s) / np.maximum(np.sqrt(2 * n) * s, 1e-30)
    z = np.where(z < 1e-4, 0, z)
    w3 = np.where(cheb <= 1, -z, -np.inf)
    wk = np.where(cheb <= k, -z, -np.inf)
    f0 = lambda lam: (1 / np.exp(w3 / lam ** 2).sum(1)).mean()
    hi, lo = (1 / (w3 == 0).sum(1)).mean(), (1 / (cheb <= 1).sum(1)).mean()
    a, b = -20.0, 20.0
    with np.errstate(all="ignore"):
        for _ in range(80):
            m = (a + b) / 2
            if f0(np.exp(m)) > coeff:
                a = m
            else:
                b = m
    L = wk / np.exp(a) ** 2 + bias * np.eye(H * W)
    w = np.exp(L - L.max(1, keepdims=True))
    w /= w.sum(1, keepdims=True)
    return (w @ f).reshape(d.shape), lo, hi


def run(d, c, **k):
    return N(nlpar(T(d, c["dtype"]), c["k"], k.get("coeff", c["coeff"]), 1e-6, k.get("bias", c["bias"])))


def conditioned(c, lo, hi):
    return lo + 0.02 < c["coeff"] < hi - 0.02


def tol(d, c):
    spread = max(d.max() - d.min(), 1e-12)
    eps = 1e-7 * (abs(d).max() / spread) * 200   # rounding of the squared differences of offset data
    return 3e-3 * spread if eps < 1e-3 else spread


@sub("reference", scans(), quick=400, thorough=15000, nontrivial=lambda c: c["noise"] > 0 and c["H"] * c["W"] > 1)
def _ref(c):
    """the output is the window average with the fitted weights"""
    d = make(c)
    x = T(d, c["dtype"])
    keep = x.clone()
    o = N(nlpar(x, c["k"], c["coeff"], 1e-6, c["bias"]))
    assert torch.equal(x, keep), "scan modified"
    assert o.shape == d.shape
    assert np.isfinite(o).all(), "not finite"
    # every output pixel lies between the smallest and largest value of that pixel in the window
    k, slack = c["k"], 1e-5 * (abs(d).max() + 1e-30)
    for i in range(c["H"]):
        for j in range(c["W"]):
            win = d[max(i - k, 0):i + k + 1, max(j - k, 0):j + k + 1]
            assert (o[i, j] >= win.min((0, 1)) - slack).all() and (o[i, j] <= win.max((0, 1)) + slack).all(), "(%d, %d) leaves its window" % (i, j)
    if c["noise"] == 0 or c["noise"] < 1e-5 * abs(d).max() / c["scale"]:
        return ["noiseless"]
    want, lo, hi = reference(d, k, c["coeff"], c["bias"])
    if not conditioned(c, lo, hi):
        return ["limit"]
    close(o, want, tol(d, c), "denoised scan")
    return ["k%d" % k, "bias" if c["bias"] else "nobias"]


@sub("equivariance", scans(), quick=200, thorough=6000, nontrivial=lambda c: c["noise"] > 0 and c["H"] * c["W"] > 1)
def _eq(c):
    """offset, scale, orientation of the scan and order of the pixels carry over to the output"""
    c = dict(c, offset=0.0)
    d = make(c)
    if c["noise"] == 0:
        return ["skip"]
    _, lo, hi = reference(d, c["k"], c["coeff"], c["bias"])
    if not conditioned(c, lo, hi):
        return ["skip"]
    o, t = run(d, c), tol(d, c)
    spread = d.max() - d.min()
    close(run(d + 2 * spread, c) - 2 * spread, o, t, "offset")
    close(run(d * 7.5, c) / 7.5, o, t, "scale")
    close(run(-d, c), -o, t, "inverted contrast")
    close(run(d[::-1].copy(), c)[::-1], o, t, "scan upside down")
    close(run(d[:, ::-1].copy(), c)[:, ::-1], o, t, "scan mirrored")
    close(run(d.swapaxes(0, 1).copy(), c).swapaxes(0, 1), o, t, "scan transposed")
    p = gen.rng(c["seed"]).permutation(c["h"] * c["w"])
    q = d.reshape(d.shape[:2] + (-1, 1))[:, :, p]
    close(run(q, c)[:, :, np.argsort(p)].reshape(d.shape), o, t, "pixels in another order")
    return ["k%d" % c["k"]]


@sub("identity", scans(), quick=100, thorough=3000, nontrivial=lambda c: c["H"] * c["W"] > 1)
def _id(c):
    """nothing to average with, equal patterns, or a large bias: the scan comes back"""
    d = make(c)
    slack = 1e-5 * (abs(d).max() + 1e-30)
    close(run(d, c, bias=60.0), d, slack, "large bias")
    close(run(d[:1, :1], c), d[:1, :1], slack, "single pattern")
    e = np.broadcast_to(d[:1, :1], d.shape).copy()
    close(run(e, c), e, slack, "equal patterns")
    return []


finish_module(globals())
