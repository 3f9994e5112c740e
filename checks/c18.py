"""C18 mutual information: value of the joint histogram, for one alignment and for every shift."""
import math

import numpy as np
import torch

from vlib import gen
from vlib.harness import finish_module, st, sub
from vlib.tu import DT, N, T, close

from ebsdtorch.utils.mutual_information import batch_binned_nmi, binned_nmi, cmif, mutual_information

RULE = ("A case is one or two stacks of images (random, related, constant, few-valued; including exact 0 and 1), bin counts 1-20, an optional "
        "overlap mask, a normalisation mode and chunk sizes; non-trivial when both images take at least two values.")
ASSUMPTIONS = ["values that lie within 1e-4 of a bin edge other than 0 and 1 are not generated",
               "normalised variants are judged where the normaliser is not zero"]
MODES = ["none", "Kvalseth Sum", "Kvalseth Min", "Kvalseth Max", "Yao", "Strehl-Ghosh", "Logarithmic"]


def entropy(p):
    p = p[p > 0]
    return float(-(p * np.log(p)).sum())


def mi_of(a, b, na, nb, mode="none"):
    """MI of integer labels a, b (1-D); None where undefined"""
    h = np.zeros((na, nb))
    np.add.at(h, (a, b), 1.0)
    if h.sum() == 0:
        return 0.0 if mode == "none" else None
    h /= h.sum()
    ea, eb, ej = entropy(h.sum(1)), entropy(h.sum(0)), entropy(h)
    return norm(max(0.0, ea + eb - ej), ea, eb, ej, mode)


def norm(mi, ea, eb, ej, mode):
    if mode == "none":
        return mi
    if min(ea, eb, ej) < 1e-9:
        return None
    if mode == "Kvalseth Sum":
        return 2 * mi / (ea + eb)
    if mode == "Kvalseth Min":
        return mi / min(ea, eb)
    if mode == "Kvalseth Max":
        return mi / max(ea, eb)
    if mode == "Yao":
        return mi / ej
    if mode == "Strehl-Ghosh":
        return mi / math.sqrt(ea * eb)
    return mi / (eb if abs(ea - eb) < 1e-6 else (ea - eb) / (math.log(ea) - math.log(eb)))


def pixels(kind, shape, seed, bins):
    """values in [0, 1] well inside their bin, or exactly 0 / 1; returns values and bins"""
    r = gen.rng(seed)
    k = r.randint(0, bins, shape)
    if kind == "const":
        k = np.zeros(shape, int) + r.randint(bins)
    elif kind == "two":
        k = np.where(r.rand(*shape) < 0.5, 0, bins - 1)
    elif kind == "skew":
        k = np.minimum(k, r.randint(0, bins, shape))
    v = (k + 0.1 + 0.8 * r.rand(*shape)) / bins
    v = np.where((k == bins - 1) & (r.rand(*shape) < 0.5), 1.0, v)
    v = np.where((k == 0) & (r.rand(*shape) < 0.5), 0.0, v)
    return v, k


KINDS = ["rand", "rand", "two", "skew", "const"]


@st.composite
def pairs(draw):
    b1, b2 = draw(st.sampled_from([(1, 1), (2, 2), (1, 3), (3, 1), (3, 3)]))
    return {"b": [b1, b2], "n": draw(gen.size(1, 60, 400, 5000)), "bins": [draw(gen.size(1, 20, 64, 256)), draw(gen.size(1, 20, 64, 256))],
            "kind": [draw(st.sampled_from(KINDS)), draw(st.sampled_from(KINDS))], "seed": draw(gen.seeds()), "link": draw(st.booleans()),
            "dt": draw(gen.dtypes()), "mode": draw(st.sampled_from(MODES)), "bits": draw(st.booleans()), "low": draw(st.booleans()),
            "norm": draw(st.booleans()), "gain": draw(st.sampled_from([1.0, 37.0, 1e-3])), "off": draw(st.sampled_from([0.0, -5.0, 2.0]))}


def make(c, na, nb):
    a, ka = pixels(c["kind"][0], (c["b"][0], c["n"]), c["seed"], na)
    b, kb = pixels(c["kind"][1], (c["b"][1], c["n"]), c["seed"] + 1, nb)
    if c["link"] and c["b"][0] == c["b"][1]:
        kb = (ka * nb) // na
        b = (kb + 0.5) / nb
    return a, ka, b, kb


@sub("histogram", pairs(), quick=500, thorough=20000, nontrivial=lambda c: "const" not in c["kind"] and c["n"] > 1)
def _hist(c):
    n = max(2, c["bins"][0])
    a, ka, b, kb = make(c, n, n)
    B = max(c["b"])
    if c["norm"]:
        # stretched to the full range, so the result ignores gain and offset
        a[:, 0], ka[:, 0], b[:, 0], kb[:, 0] = 0.0, 0, 0.0, 0
        if c["n"] > 1:
            a[:, -1], ka[:, -1] = 1.0, n - 1
            if c["kind"][1] != "const":
                b[:, -1], kb[:, -1] = 1.0, n - 1
            else:
                b[:], kb[:] = 0.25, 0
        x, y = T(a * c["gain"] + c["off"], c["dt"]), T(b, c["dt"])
        if c["n"] == 1:
            ka[:], kb[:] = 0, 0
    else:
        x, y = T(a, c["dt"]), T(b, c["dt"])
    x0, y0 = x.clone(), y.clone()
    o = N(mutual_information(x, y, n_bins=n, normalize=c["norm"]))
    assert torch.equal(x, x0) and torch.equal(y, y0), "images modified"
    assert o.shape == (B,), "shape %s for a batch of %d" % (o.shape, B)
    for i in range(B):
        e = mi_of(ka[i % c["b"][0]], kb[i % c["b"][1]], n, n)
        close(o[i], e, 2e-5, "mutual information of pair %d" % i)
    s = N(mutual_information(y, x, n_bins=n, normalize=c["norm"]))
    close(s, o, 2e-5, "not symmetric")
    return [c["dt"], "b%d%d" % tuple(c["b"]), "norm" if c["norm"] else "raw"]


@sub("binned", pairs(), quick=500, thorough=20000, nontrivial=lambda c: "const" not in c["kind"] and c["n"] > 1)
def _binned(c):
    na, nb = c["bins"]
    a, ka, b, kb = make(c, na, nb)
    B = max(c["b"])
    x, y = T(a, c["dt"]), T(b, c["dt"])
    mode = c["mode"]
    lo = c["low"] and na > 1 and nb > 1
    o = N(batch_binned_nmi(x, y, na, nb, mode="bits" if c["bits"] else "nats", norm_mode=mode, exclude_lowest_bin=lo))
    assert o.shape == (B,), "shape %s for a batch of %d" % (o.shape, B)
    for i in range(B):
        p, q = ka[i % c["b"][0]], kb[i % c["b"][1]]
        if lo:
            k = (p > 0) & (q > 0)
            p, q = p[k], q[k]
            if not len(p):
                continue
        e = mi_of(p, q, na, nb, mode)
        if e is None:
            continue
        if c["bits"] and mode == "none":
            e /= math.log(2)
        if c["bits"] and mode == "Logarithmic":
            continue  # the logarithm of an entropy depends on its unit only through the same factor
        close(o[i], e, 3e-4 if mode != "none" else 3e-5, "%s mutual information of pair %d" % (mode, i))
        if B == 1 or c["b"][0] == c["b"][1]:
            one = float(binned_nmi(x[i % c["b"][0]], y[i % c["b"][1]], na, nb, mode="bits" if c["bits"] else "nats", norm_mode=mode,
                                   exclude_lowest_bin=lo))
            close(one, o[i], 1e-6 + 1e-5 * abs(one), "single pair")
    return [mode, "low" if lo else "all"]


@st.composite
def maps(draw):
    big = draw(st.integers(0, 3)) == 0
    nb = [draw(st.integers(9, 18)) if big else draw(st.integers(1, 8)), draw(st.integers(2, 17)) if big else draw(st.integers(1, 8))]
    if draw(st.booleans()):
        nb = nb[::-1]
    return {"shape": [draw(gen.size(1, 9, 16, 21)), draw(gen.size(1, 9, 16, 21))], "bins": nb, "chunk": draw(st.sampled_from([8, 3, 5, 16])),
            "b": [draw(gen.size(1, 3, 7, rare=15)), draw(gen.size(1, 3, 7, rare=15))], "kind": [draw(st.sampled_from(KINDS)), draw(st.sampled_from(KINDS))],
            "seed": draw(gen.seeds()), "mode": draw(st.sampled_from(["none"] + MODES)), "const": draw(st.integers(0, 3)) == 0,
            "mask": [draw(st.sampled_from(["none", "box", "rand"])), draw(st.sampled_from(["none", "none", "box", "rand"]))],
            "self": draw(st.booleans())}


def mask(kind, shape, r):
    m = np.ones(shape)
    if kind == "box":
        m[:] = 0
        a, b = r.randint(shape[-2]), r.randint(shape[-1])
        m[..., a:a + 1 + r.randint(shape[-2]), b:b + 1 + r.randint(shape[-1])] = 1
    elif kind == "rand":
        m = (r.rand(*shape) < 0.7).astype(float)
    return m


@sub("shift_map", maps(), quick=250, thorough=8000, nontrivial=lambda c: "const" not in c["kind"] and min(c["shape"]) > 1)
def _map(c):
    H, W = c["shape"]
    nd, ns = c["bins"]
    r = gen.rng(c["seed"] + 9)
    bd, bs = c["b"]
    D, kd = pixels(c["kind"][0], (bd, H, W), c["seed"], nd)
    S, ks = pixels(c["kind"][1], (bs, H, W), c["seed"] + 1, ns)
    if c["self"] and nd == ns:
        S, ks = np.roll(D[:1], (1, 2), (1, 2)).repeat(bs, 0), np.roll(kd[:1], (1, 2), (1, 2)).repeat(bs, 0)
    mk = [None if k == "none" or c["const"] else mask(k, (b, H, W), r) for k, b in zip(c["mask"], (bd, bs))]
    md, ms = [np.ones((b, H, W)) if m is None else m for m, b in zip(mk, (bd, bs))]
    td, ts = T(D, "f32")[:, None], T(S, "f32")[:, None]
    keep = td.clone(), ts.clone()
    o = N(cmif(td, ts, None if mk[0] is None else T(mk[0], "f32")[:, None], None if mk[1] is None else T(mk[1], "f32")[:, None],
               nd, ns, c["chunk"], c["const"], c["mode"]))
    assert torch.equal(td, keep[0]) and torch.equal(ts, keep[1]), "images modified"
    assert o.shape == (bd, bs, H, W), "shape %s for %d and %d images" % (o.shape, bd, bs)
    for i in range(bd):
        for j in range(bs):
            for y in range(H):
                for x in range(W):
                    sy, sx = y - H // 2, x - W // 2
                    d, m = np.roll(kd[i], (-sy, -sx), (0, 1)), np.roll(md[i], (-sy, -sx), (0, 1)) * ms[j] > 0
                    if c["const"]:
                        ea = entropy(np.bincount(kd[i].ravel(), minlength=nd) / (H * W))
                        eb = entropy(np.bincount(ks[j].ravel(), minlength=ns) / (H * W))
                        h = np.zeros((nd, ns))
                        np.add.at(h, (d.ravel(), ks[j].ravel()), 1.0 / (H * W))
                        ej = entropy(h)
                        e = norm(max(0.0, ea + eb - ej), ea, eb, ej, c["mode"])
                    else:
                        e = mi_of(d[m], ks[j][m], nd, ns, c["mode"])
                    if e is None:
                        continue
                    if not abs(o[i, j, y, x] - e) <= (3e-5 if c["mode"] == "none" else 1e-3):
                        raise AssertionError("images %d, %d shifted by (%d, %d): %s mutual information %r, expected %r" % (
                            i, j, sy, sx, c["mode"], o[i, j, y, x], e))
    return [c["mode"], "chunked" if max(nd, ns) > 8 else "direct", "const" if c["const"] else "local"]


finish_module(globals())
