"""C21 radial masks, Gaussian blur and blurred downsampling."""
import numpy as np
import torch
import torch.nn.functional as F

from vlib import gen
from vlib.harness import finish_module, st, sub
from vlib.tu import N, T, close

from ebsdtorch.preprocessing.radial_mask import get_radial_mask
from ebsdtorch.preprocessing.resampling import BlurAndDownsample, GaussianBlur2d

RULE = ("A case is a mask shape 1-40 x 1-40 with a radius and centre, or a batch of 1-3 images of 1-32 px a side (odd and even, random, constant, one "
        "bright pixel) with a blur width, cut-off and padding or a downsampling factor; non-trivial when the blur kernel exceeds one pixel.")
ASSUMPTIONS = ["mask pixels within 1e-3 px^2 of the circle are not judged",
               "the extent of the blur kernel, cut-off * sigma up to rounding, is taken from the module; its values are not",
               "F.interpolate of torch is the reference for the resampling that follows the blur"]


@sub("mask", st.fixed_dictionaries({
    "h": gen.size(1, 40, 128, 301), "w": gen.size(1, 40, 131, 256), "r": st.one_of(st.none(), st.floats(0.3, 45), st.floats(40, 200), st.sampled_from([0, 0.0, 1, 7])),
    "c": st.one_of(st.none(), st.tuples(st.floats(-0.2, 1.2), st.floats(-0.2, 1.2)).map(list))}), quick=300,
    nontrivial=lambda c: c["h"] > 1 and c["w"] > 1)
def _mask(c):
    """a pixel is in the mask iff it lies inside the circle"""
    args = {} if c["c"] is None else {"center": tuple(c["c"])}
    m = get_radial_mask((c["h"], c["w"]), c["r"], **args)
    assert m.dtype == torch.bool and m.shape == (c["h"], c["w"])
    ci, cj = c["c"] or (0.5, 0.5)
    r = min(c["h"], c["w"]) / 2 if c["r"] is None else c["r"]
    i, j = np.mgrid[0:c["h"], 0:c["w"]]
    d = (i - ci * (c["h"] - 1)) ** 2 + (j - cj * (c["w"] - 1)) ** 2 - r * r
    bad = (m.numpy() != (d < 0)) & (abs(d) > 1e-3)
    assert not bad.any(), "pixel %r" % np.argwhere(bad)[0].tolist()
    # a mask and its transpose agree
    t = get_radial_mask((c["w"], c["h"]), c["r"], **({} if c["c"] is None else {"center": tuple(c["c"][::-1])})).numpy()
    assert ((t.T == m.numpy()) | (abs(d) <= 1e-3)).all(), "transposed mask"
    return ["default" if c["r"] is None else "radius"]


def image(kind, B, H, W, seed):
    r = gen.rng(seed)
    if kind == "const":
        return np.zeros((B, H, W)) + r.randn(B, 1, 1)
    if kind == "spike":
        v = np.zeros((B, H, W))
        v[:, r.randint(H), r.randint(W)] = 1.0
        return v
    return r.randn(B, H, W) * 3


def blur(img, sigma, n, reflect):
    """Gaussian of n taps a side"""
    h = n // 2
    t = np.arange(-h, h + 1)
    k = np.exp(-t ** 2 / (2 * sigma ** 2))
    k /= k.sum()
    p = np.pad(img, ((0, 0), (h, h), (h, h)), mode="reflect" if reflect and h else "constant")
    p = sum(k[a] * p[:, a:a + img.shape[1]] for a in range(n))
    return sum(k[a] * p[:, :, a:a + img.shape[2]] for a in range(n))


SHAPES = {"H": gen.size(1, 32, 70, 129), "W": gen.size(1, 32, 75, 128), "B": gen.size(1, 3, 10), "kind": st.sampled_from(["rand", "rand", "const", "spike"]),
          "seed": gen.seeds(), "dtype": st.sampled_from(["f32", "f64"])}


@sub("blur", st.fixed_dictionaries(dict(SHAPES, sigma=st.one_of(st.sampled_from([0.5, 1, 1.0, 2, 1.5, 2.0 / 3]), st.floats(0.05, 3.0), st.floats(3.0, 9.0)),
                                        z=st.integers(1, 4), reflect=st.booleans())), quick=400, thorough=12000,
     nontrivial=lambda c: c["sigma"] * c["z"] >= 1 and c["kind"] != "const")
def _blur(c):
    """every pixel is the normalised Gaussian average of its surroundings, for odd and even sides"""
    m = GaussianBlur2d(c["sigma"], c["z"], c["reflect"]).to(T([0.0], c["dtype"]).dtype)
    n = m.kernel.shape[-1]
    assert n % 2 == 1 and m.kernel.shape == (1, 1, n, n)
    assert abs((n - 1) / 2 - c["sigma"] * c["z"]) <= 1.0 + 1e-6, "kernel of %d taps for %r x %r" % (n, c["z"], c["sigma"])
    if c["reflect"] and n // 2 + 1 >= min(c["H"], c["W"]):
        return ["skip"]
    v = image(c["kind"], c["B"], c["H"], c["W"], c["seed"])
    x = T(v, c["dtype"])[:, None]
    keep = x.clone()
    o = m(x)
    assert torch.equal(x, keep), "image modified"
    assert o.shape == x.shape, "shape %s for %s" % (tuple(o.shape), tuple(x.shape))
    eps = (1e-6 if c["dtype"] == "f32" else 5e-7) * (1 + abs(v).max()) * 4
    close(N(o)[:, 0], blur(N(x)[:, 0], c["sigma"], n, c["reflect"]), eps, "blurred image")
    close(N(m(x.flip(-1)).flip(-1)), N(o), eps, "mirrored image")
    close(N(m(x.swapaxes(-1, -2)).swapaxes(-1, -2)), N(o), eps, "transposed image")
    return ["odd" if c["H"] % 2 or c["W"] % 2 else "even"]


@sub("downsample", st.fixed_dictionaries(dict(SHAPES, factor=st.sampled_from([1.0, 1.5, 2.0, 2, 3.0, 4.0]),
                                              mode=st.sampled_from(["bicubic", "bilinear", "nearest"]))), quick=200, thorough=5000,
     nontrivial=lambda c: c["factor"] > 1 and c["kind"] != "const")
def _down(c):
    """the image is blurred by a third of the factor and sampled on the coarser grid"""
    al = {} if c["mode"] != "nearest" else {"align_corners": None}
    m = BlurAndDownsample(c["factor"], c["mode"], **al)
    sigma = c["factor"] / 3.0
    n = m.gb.kernel.shape[-1]
    if n // 2 + 1 >= min(c["H"], c["W"]) or min(c["H"], c["W"]) < c["factor"]:
        return ["skip"]
    v = N(T(image(c["kind"], c["B"], c["H"], c["W"], c["seed"]), "f32"))
    o = m(T(v, "f32")[:, None])
    size = (int(c["H"] / c["factor"]), int(c["W"] / c["factor"]))
    assert o.shape == (c["B"], 1) + size, "shape %s for %s / %r" % (tuple(o.shape), v.shape, c["factor"])
    assert abs((n - 1) / 2 - 3 * sigma) <= 1.0 + 1e-6, "kernel of %d taps" % n
    b = torch.tensor(blur(v, sigma, n, True))[:, None]
    eps = 1e-5 * (1 + abs(v).max())
    close(N(o), N(F.interpolate(b, size=size, mode=c["mode"], **({} if al else {"align_corners": False}))), eps, "downsampled image")
    if c["kind"] == "const":
        close(N(o)[:, 0], v[:, :1, :1] + np.zeros((1,) + size), eps, "constant image")
    if c["mode"] != "nearest":
        close(N(m(T(v, "f32")[:, None].flip(-1)).flip(-1)), N(o), eps, "mirrored image")
    return [c["mode"]]


finish_module(globals())
