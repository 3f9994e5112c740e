"""C19 contrast-limited adaptive histogram equalisation."""
import math

import numpy as np
import torch

from vlib import gen
from vlib.harness import finish_module, st, sub
from vlib.tu import N, T, close

from ebsdtorch.preprocessing.clahe import clahe_grayscale

RULE = ("A case is a batch of 1-3 images (1-24 px a side, values in [0, 1] random, few-valued, constant, ramps or one bright pixel), a tile grid, "
        "a bin count and a clip limit; non-trivial when there is more than one tile.")
ASSUMPTIONS = ["reference in NumPy with integer histograms: tiles of equal size, the image reflected beyond its lower right edge, clipped counts "
               "redistributed evenly with the remainder to the lowest bins, cumulative histograms interpolated between tile centres and bins",
               "images whose values lie within 1e-5 of a histogram bin edge are not generated, except exact 0 and 1"]


@st.composite
def images(draw):
    gh, gw = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return {"grid": [gh, gw], "H": draw(gen.size(max(2, gh), 24, 60, 101)), "W": draw(gen.size(max(2, gw), 24, 60, 131)), "B": draw(gen.size(1, 3, 9, 40, rare=20)),
            "bins": draw(st.sampled_from([2, 3, 8, 16, 64, 256, 300, 1000])), "clip": draw(st.sampled_from([0.0, 1.0, 2.5, 8.0, 40.0, 1000.0])),
            "kind": draw(st.sampled_from(["rand", "few", "const", "ramp", "spike", "halves"])), "seed": draw(gen.seeds()),
            "mem": draw(st.sampled_from(["plain", "plain", "strided"]))}


def make(c):
    r = gen.rng(c["seed"])
    s = (c["B"], c["H"], c["W"])
    nb = c["bins"]
    if c["kind"] == "rand":
        v = r.rand(*s)
    elif c["kind"] == "few":
        v = r.choice([0.0, 0.3, 1.0], s)
    elif c["kind"] == "const":
        v = np.zeros(s) + r.choice([0.0, 0.37, 1.0])
    elif c["kind"] == "ramp":
        v = np.broadcast_to(np.linspace(0, 1, c["W"]), s) * r.rand(c["B"], 1, 1)
    elif c["kind"] == "spike":
        v = np.zeros(s)
        v[:, r.randint(c["H"]), r.randint(c["W"])] = 1.0
    else:
        v = np.zeros(s) + 0.2
        v[..., c["W"] // 2:] = 0.8
    e = v * (nb - 1)
    near = np.abs(e - np.round(e)) < 1e-4
    v = np.where(near & (v > 0) & (v < 1), np.clip((np.round(e) + 0.25) / (nb - 1), 0, 1), v)
    return N(T(v, "f32"))


def curves(img, gh, gw, nb, clip):
    """cumulative histogram of each tile (gh, gw, nb) in [0, 1]"""
    H, W = img.shape
    th, tw = math.ceil(H / gh), math.ceil(W / gw)
    p = np.pad(img, ((0, th * gh - H), (0, tw * gw - W)), mode="reflect")
    n = th * tw
    out = np.zeros((gh, gw, nb))
    for i in range(gh):
        for j in range(gw):
            k = np.floor(p[i * th:(i + 1) * th, j * tw:(j + 1) * tw] * (nb - 1) + 1e-9).astype(int)
            h = np.bincount(k.ravel(), minlength=nb).astype(float)
            if clip > 0:
                h = np.minimum(h, max(clip * n // nb, 1))
                extra = n - h.sum()
                h += extra // nb
                h[:int(round(extra % nb))] += 1
            out[i, j] = np.clip(np.cumsum(h) / n, 0, 1)
    return out, th, tw


def ref(img, gh, gw, nb, clip):
    C, th, tw = curves(img, gh, gw, nb, clip)
    H, W = img.shape
    ax = lambda v, n: (np.clip(np.floor(v), 0, n - 1).astype(int), np.clip(np.floor(v) + 1, 0, n - 1).astype(int), v - np.floor(v))
    v = lambda x, n: np.clip(x, 0, n - 1)
    I, J = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
    i0, i1, fi = ax(v((I + 0.5) / th - 0.5, gh), gh)
    j0, j1, fj = ax(v((J + 0.5) / tw - 0.5, gw), gw)
    k0, k1, fk = ax(v(img * nb - 0.5, nb), nb)
    o = 0
    for a, wa in ((i0, 1 - fi), (i1, fi)):
        for b, wb in ((j0, 1 - fj), (j1, fj)):
            for k, wk in ((k0, 1 - fk), (k1, fk)):
                o = o + C[a, b, k] * wa * wb * wk
    return o


def run(v, c):
    return N(clahe_grayscale(v, clip_limit=c["clip"], n_bins=c["bins"], grid_shape=tuple(c["grid"])))


@sub("reference", images(), quick=400, thorough=12000, nontrivial=lambda c: c["grid"] != [1, 1])
def _ref(c):
    v = make(c)
    gh, gw = c["grid"]
    th, tw = math.ceil(c["H"] / gh), math.ceil(c["W"] / gw)
    if th * gh - c["H"] >= c["H"] or tw * gw - c["W"] >= c["W"]:
        return ["skip"]
    x = T(v, "f32")[:, None]
    if c["mem"] == "strided":
        x = torch.stack([x, 1 - x], -1)[..., 0]
    keep = x.clone()
    o = run(x, c)
    assert torch.equal(x, keep), "image modified"
    assert o.shape == (c["B"], 1, c["H"], c["W"]), "shape %s" % (o.shape,)
    assert (o >= 0).all() and (o <= 1 + 1e-6).all(), "range [%r, %r]" % (o.min(), o.max())
    for b in range(c["B"]):
        close(o[b, 0], ref(v[b], gh, gw, c["bins"], c["clip"]), 3e-5 + 2e-6 * c["bins"], "image %d" % b)
        close(run(x[b:b + 1], c)[0, 0], o[b, 0], 1e-6, "image %d on its own" % b)
    return [c["kind"], "even" if c["H"] % gh == 0 and c["W"] % gw == 0 else "padded", "clip" if c["clip"] else "noclip"]


@sub("large", st.fixed_dictionaries({
    "grid": st.lists(st.integers(1, 3), min_size=2, max_size=2), "H": st.integers(100, 220), "W": st.integers(100, 220), "B": st.integers(1, 2), "bins": st.sampled_from([64, 128, 256, 300, 1000]),
    "clip": st.sampled_from([0.0, 2.5, 40.0, 1000.0]), "kind": st.sampled_from(["rand", "few", "const", "ramp", "spike", "halves"]), "seed": gen.seeds(), "mem": st.just("plain")}),
     quick=16, thorough=600)
def _large(c):
    """tiles of tens of thousands of pixels and many bins"""
    return _ref(c)


@sub("symmetry", images(), quick=150, thorough=4000, nontrivial=lambda c: c["grid"] != [1, 1])
def _sym(c):
    """transposing the image (and flipping it, if the tiles divide it) transposes the result"""
    v = make(c)
    gh, gw = c["grid"]
    th, tw = math.ceil(c["H"] / gh), math.ceil(c["W"] / gw)
    if th * gh - c["H"] >= c["H"] or tw * gw - c["W"] >= c["W"]:
        return ["skip"]
    x = T(v, "f32")[:, None]
    o = run(x, c)
    t = run(x.transpose(-1, -2).contiguous(), dict(c, grid=[gw, gh]))
    close(t, o.swapaxes(-1, -2), 1e-5, "transposed image")
    if c["H"] % gh == 0 and c["W"] % gw == 0:
        close(run(x.flip(-1), c)[..., ::-1], o, 1e-5 + 2e-6 * c["bins"], "mirrored image")
        close(run(x.flip(-2), c)[..., ::-1, :], o, 1e-5 + 2e-6 * c["bins"], "flipped image")
        return ["flip"]
    return []


finish_module(globals())
