"""C11 master patterns: interpolation, binning, normalisation, reading."""
import math
import os
import tempfile

import numpy as np
import torch

from vlib import batch, gen
from vlib.harness import finish_module, st, sub
from vlib.tu import DT, N, T, close
from checks.c08 import ref_square

from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.project_hrebsd import project_hrebsd
from ebsdtorch.preprocessing.clahe import clahe_grayscale

RULE = ("A case is a master pattern (two hemispheres of 1-24 x 1-24 px, random / smooth / one-pixel / constant) with a history of "
        "normalise, CLAHE, bin, dtype and lookup operations; non-trivial when at least one lookup is made off the pole.")
ASSUMPTIONS = ["bilinear lookup re-derived in NumPy: each hemisphere is its own image, clamped at its outermost pixel centres",
               "values are claimed for the default align_corners=False; with aligned corners only that the hemispheres stay apart"]


def to_square(v):
    """direction -> (x, y) on [-1, 1]^2 of its own hemisphere"""
    v = np.asarray(v, float)
    x, y, z = v[..., 0], v[..., 1], np.abs(v[..., 2])
    r = np.sqrt(np.maximum(0, 1 - z))
    sw = np.abs(y) > np.abs(x)
    A, B = np.where(sw, y, x), np.where(sw, x, y)
    a = np.where(A < 0, -r, r)
    b = a * np.where(A == 0, 0.0, np.arctan(B / np.where(A == 0, 1, A))) * 4 / math.pi
    return np.where(sw, b, a), np.where(sw, a, b)


def lookup(img, x, y):
    H, W = img.shape
    c = np.clip((x + 1) * W / 2 - 0.5, 0, W - 1)
    r = np.clip((y + 1) * H / 2 - 0.5, 0, H - 1)
    c0, r0 = np.floor(c).astype(int), np.floor(r).astype(int)
    c1, r1 = np.minimum(c0 + 1, W - 1), np.minimum(r0 + 1, H - 1)
    fc, fr = c - c0, r - r0
    return (img[r0, c0] * (1 - fr) * (1 - fc) + img[r0, c1] * (1 - fr) * fc + img[r1, c0] * fr * (1 - fc) + img[r1, c1] * fr * fc)


def interp(mp, v):
    """mp (H, 2W) float64"""
    W = mp.shape[1] // 2
    x, y = to_square(v)
    return np.where(np.asarray(v)[..., 2] < 0, lookup(mp[:, W:], x, y), lookup(mp[:, :W], x, y))


def image(kind, H, W, seed):
    r = gen.rng(seed)
    if kind == "random":
        return r.rand(H, 2 * W)
    if kind == "wide":
        return 1000 * r.randn(H, 2 * W) - 300
    if kind == "smooth":
        i, j = np.mgrid[0:H, 0:2 * W]
        return np.sin(0.3 * i + r.rand()) + np.cos(0.2 * j)
    if kind == "halves":
        a = np.zeros((H, 2 * W))
        a[:, W:] = 1.0
        return a
    a = np.zeros((H, 2 * W))
    a[r.randint(H), r.randint(2 * W)] = 1.0
    return a


@st.composite
def patterns(draw, lo=1):
    H = draw(gen.size(lo, 24, 65, 128))
    W = H if draw(st.booleans()) else draw(gen.size(lo, 24, 77, 101))
    return {"H": H, "W": W, "kind": draw(st.sampled_from(["random", "wide", "smooth", "halves", "delta"])), "seed": draw(gen.seeds())}


@st.composite
def lookups(draw):
    n = draw(st.sampled_from([1, 2, 3, 5, 7, 12, 13, 24, 36]))
    dims = draw(st.sampled_from([d for d in [(n,), (1, n), (n, 1), (2, n // 2), (3, n // 3), (2, 2, n // 4)] if int(np.prod(d)) == n]))
    return {"img": draw(patterns()), "pts": draw(gen.s2_points(n, n)), "dims": list(dims), "scale": draw(st.sampled_from([1.0, 0.01, 37.0])),
            "dt": draw(gen.dtypes()), "mode": draw(st.sampled_from(["bilinear", "bilinear", "nearest"])),
            "mem": draw(st.sampled_from(["plain", "strided"])), "tuple": draw(st.booleans())}


def make(img, dt, tup=False, laue=11):
    t = T(image(img["kind"], img["H"], img["W"], img["seed"]), dt)
    if tup:
        return MasterPattern((t[:, :img["W"]].clone(), t[:, img["W"]:].clone()), laue_group=laue), N(t)
    return MasterPattern(t, laue_group=laue), N(t)


@sub("lookup", lookups(), quick=600, thorough=15000, nontrivial=lambda c: any(abs(p[2]) < 0.999 for p in c["pts"]))
def _lookup(c):
    mp, ref = make(c["img"], c["dt"], c["tuple"])
    v = N(T(c["pts"], c["dt"]))
    x = T(v * c["scale"], c["dt"]).reshape(*c["dims"], 3)
    if c["mem"] == "strided":
        x = torch.stack([x, x + 1], -1)[..., 0]
    keep = x.clone()
    o = mp.interpolate(x, mode=c["mode"], normalize_coords=True)
    assert torch.equal(x, keep), "coordinates modified"
    assert tuple(o.shape) == tuple(c["dims"]) and o.dtype == x.dtype, "shape %s dtype %s" % (tuple(o.shape), o.dtype)
    o = N(o).reshape(-1)
    if c["scale"] == 1.0:
        o2 = N(mp.interpolate(x, mode=c["mode"], normalize_coords=False)).reshape(-1)
    span = float(ref.max() - ref.min()) + 1e-12
    # directions next to the equator lie on either hemisphere after rounding
    tol = {"f64": 1e-6, "f32": 4e-3}[c["dt"]] * span * max(c["img"]["H"], c["img"]["W"]) / 4 + 1e-9
    judge = (np.abs(v[:, 2]) > 1e-6) | (v[:, 2] == 0)
    if c["mode"] == "bilinear":
        e = interp(ref, v)
        if c["dt"] == "f32":
            judge &= np.abs(v[:, 2]) < 1 - 1e-6  # f32 pole: sqrt of the rounding error
            pole = ~judge & (np.abs(v[:, 2]) >= 1 - 1e-6)
            close(o[pole], e[pole], tol * 4, "value next to the pole")
        close(o[judge], e[judge], tol, "interpolated value")
        if c["scale"] == 1.0:
            close(o2[judge], e[judge], tol, "interpolated value without normalisation")
    else:
        W = c["img"]["W"]
        X, Y = to_square(v)
        H = c["img"]["H"]
        for k in np.where(judge)[0]:
            half = ref[:, W:] if v[k, 2] < 0 else ref[:, :W]
            cc, rr = np.clip((X[k] + 1) * W / 2 - 0.5, 0, W - 1), np.clip((Y[k] + 1) * H / 2 - 0.5, 0, H - 1)
            s = 0.5 + 0.02
            ci = [j for j in range(W) if abs(j - cc) <= s]
            ri = [i for i in range(H) if abs(i - rr) <= s]
            cand = half[np.ix_(ri, ci)]
            assert np.abs(cand - o[k]).min() <= 1e-6 * (span + abs(o[k])), "nearest value %r, candidates %r" % (o[k], cand.tolist())
    one = torch.cat([mp.interpolate(x.reshape(-1, 3)[k:k + 1], mode=c["mode"]) for k in range(len(v))])
    j2 = judge if c["mode"] == "bilinear" else np.zeros(len(v), bool)
    close(N(one)[j2], o[j2], tol, "one by one")
    assert mp.interpolate(x.reshape(-1, 3)[:0]).shape == (0,), "empty lookup"
    return [c["mode"], c["dt"], "%dd" % len(c["dims"])]


@sub("pixel_centres", patterns(), quick=200)
def _centres(c):
    mp, ref = make(c, "f64")
    H, W = c["H"], c["W"]
    xs, ys = (2 * np.arange(W) + 1) / W - 1, (2 * np.arange(H) + 1) / H - 1
    g = np.stack(np.meshgrid(xs, ys, indexing="xy"), -1)
    v = ref_square(g)
    for half, s in ((ref[:, :W], 1.0), (ref[:, W:], -1.0)):
        o = N(mp.interpolate(T(v * [1, 1, s])))
        close(o, half, 1e-6 * (np.abs(ref).max() + 1), "value at the pixel centres (%+d hemisphere)" % s)
    return [c["kind"]]


@st.composite
def histories(draw):
    img = draw(patterns(2))
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(["lookup", "lookup", "vlookup", "vlookup", "bin", "minmax", "zeromean", "standard", "clahe", "f64", "f32"]))
        ops.append([k, draw(st.sampled_from([1, 2, 3, 4])), draw(gen.seeds())])
    return {"img": img, "ops": ops, "divisible": draw(st.booleans())}


def pool(half, b):
    H, W = half.shape
    return half.reshape(H // b, b, W // b, b).mean(axis=(1, 3))


@sub("history", histories(), quick=350, thorough=6000, nontrivial=lambda c: sum(o[0] in ("lookup", "vlookup") for o in c["ops"]) > 1)
def _history(c):
    """reference model: the current pattern; binned copies are never observable after a change"""
    img = dict(c["img"])
    if c["divisible"]:
        img["H"], img["W"] = 12 * (1 + img["H"] % 2), 12 * (1 + img["W"] % 2)
    t0 = T(image(img["kind"], img["H"], img["W"], img["seed"]), "f32")
    keep = t0.clone()
    mp = MasterPattern(t0, laue_group=11)
    cur, dt, W = N(t0), "f32", img["W"]
    labels = []
    for op, k, seed in c["ops"]:
        span = float(cur.max() - cur.min())
        if op in ("lookup", "vlookup"):
            v = gen.rng(seed).randn(9, 3)
            v /= np.linalg.norm(v, axis=-1, keepdims=True)
            v = v[np.abs(v[:, 2]) > 1e-3]
            b = 1 if op == "lookup" else k
            o = N(mp.interpolate(T(v, dt), virtual_binning=b))
            if b == 1 or (img["H"] % b == 0 and W % b == 0):
                m = cur if b == 1 else np.concatenate([pool(cur[:, :W], b), pool(cur[:, W:], b)], -1)
                close(o, interp(m, v), 1e-2 * span + 1e-5 * np.abs(cur).max() + 1e-9, "lookup with binning %d after %s" % (b, labels))
            else:
                south = v[:, 2] < 0
                for sel, half in ((south, cur[:, W:]), (~south, cur[:, :W])):
                    e = 1e-5 * (np.abs(half).max() + 1)
                    assert ((o[sel] >= half.min() - e) & (o[sel] <= half.max() + e)).all(), \
                        "binned lookup outside the range of its hemisphere: %r not in [%r, %r]" % (o[sel].tolist(), half.min(), half.max())
        elif op == "bin":
            mp.bin(k)
        elif op in ("f64", "f32"):
            mp = mp.double() if op == "f64" else mp.float()
            dt = op
        elif op == "clahe":
            lo, hi = float(cur.min()), float(cur.max())
            if not (lo >= 0 and hi <= 1) or dt != "f32" or cur.shape[0] < 8 or cur.shape[1] < 8:
                continue
            mp.apply_clahe(clip_limit=40.0, n_bins=16, grid_shape=(2, 2))
            cur = N(clahe_grayscale(T(cur, "f32")[None, None], 40.0, 16, (2, 2)))[0, 0]
            close(N(mp.master_pattern), cur, 1e-6, "CLAHE")
        else:
            mean = cur.mean()
            if op == "standard" and cur.std() < 1e-6:
                continue
            mp.normalize(op)
            new = N(mp.master_pattern)
            if op == "minmax":
                assert new.min() == 0 and new.max() <= 1 + 1e-6, "range [%r, %r]" % (new.min(), new.max())
                if span > 0.05:
                    assert new.max() >= 1 - 3e-3, "maximum %r" % new.max()
                close(new, (cur - cur.min()) / (span + 1e-4), 1e-4 * max(1.0, np.abs(cur).max() / (span + 1e-4) * 0.1), "minmax")
            elif op == "zeromean":
                close(new, cur - mean, 1e-5 * (np.abs(cur).max() + 1e-6) + 1e-7, "zeromean")
            else:
                e = (cur - mean) / cur.std(ddof=1)
                close(new, e, 1e-3 * (1 + np.abs(e).max()) * (1 + abs(mean) / cur.std() * 0.01), "standard")
            cur = new
        assert torch.equal(t0, keep), "%s modified the tensor the pattern was made from" % op
        labels.append(op)
    return sorted(set(labels))


@sub("hemispheres", st.fixed_dictionaries({"img": patterns(1), "seed": gen.seeds(), "mode": st.sampled_from(["bilinear", "nearest"]), "align": st.booleans(), "bin": st.sampled_from([1, 1, 2, 3]),
                                           "dt": gen.dtypes()}), quick=150, thorough=4000, nontrivial=lambda c: c["img"]["W"] > 1)
def _hemi(c):
    """directions of one hemisphere never see the image of the other, with aligned corners or without"""
    i = dict(c["img"], kind="random")
    a, b, z = (image("random", i["H"], i["W"], i["seed"] + k) for k in range(3))
    W = i["W"]
    r = gen.rng(c["seed"])
    v = r.normal(size=(60, 3))
    v[:20, 2] *= 1e-3 * r.rand(20)
    v[20:24, 2] = 0
    v /= np.linalg.norm(v, axis=1, keepdims=True)
    x = T(v, c["dt"])
    out = []
    for img in (a, np.concatenate([a[:, :W], z[:, W:]], 1), np.concatenate([z[:, :W], a[:, W:]], 1)):
        mp = MasterPattern(T(np.ascontiguousarray(img), c["dt"]), laue_group=1)
        out.append(N(mp.interpolate(x, mode=c["mode"], align_corners=c["align"], virtual_binning=c["bin"])))
    e = (1e-4 if c["dt"] == "f32" else 1e-9) * max(float(np.abs(a).max()), float(np.abs(z).max()), 1e-6)
    north = N(x)[:, 2] >= 0
    close(out[1][north], out[0][north], e, "northern lookups after a change of the southern image")
    close(out[2][~north], out[0][~north], e, "southern lookups after a change of the northern image")
    return [c["mode"], "aligned" if c["align"] else "default", "bin%d" % c["bin"]]


@sub("sizes", st.fixed_dictionaries({"img": patterns(2), "seed": gen.seeds(), "n": st.sampled_from([10, 60, 130, 230]), "top": st.sampled_from([30, 400])}), quick=12, thorough=300,
     nontrivial=lambda c: c["n"] > 10)
def _sizes(c):
    """a lookup does not depend on how many were made at once, nor on how many sizes came before"""
    i = c["img"]
    mp = MasterPattern(T(image("random", i["H"], i["W"], i["seed"]), "f32"), laue_group=1)
    r = gen.rng(c["seed"])
    v = r.normal(size=(c["top"], 3))
    x = T(v / np.linalg.norm(v, axis=1, keepdims=True), "f32")
    all_ = N(mp.interpolate(x))
    assert all_.shape == (c["top"],)
    for k in range(c["n"]):
        n = int(r.randint(1, c["top"] + 1))
        s = int(r.randint(0, c["top"] - n + 1))
        close(N(mp.interpolate(x[s:s + n])), all_[s:s + n], 1e-4 * (abs(all_).max() + 1e-6), "lookup %d, of %d directions" % (k, n))
    return ["%d lookups" % c["n"]]


@sub("errors", patterns(), quick=20)
def _errors(c):
    t = T(image(c["kind"], c["H"], c["W"], c["seed"]), "f32")
    bad = [dict(), dict(laue_group=3, space_group=225), dict(laue_group=3, point_group="mmm"), dict(point_group="mmm", space_group=47),
           dict(space_group=0), dict(space_group=231), dict(point_group="mmmm")]
    for kw in bad:
        try:
            MasterPattern(t, **kw)
        except Exception:
            continue
        raise AssertionError("accepted %r" % kw)
    for x in (t[0], t[None], (t[None], t[None])):
        try:
            MasterPattern(x, laue_group=1)
        except Exception:
            continue
        raise AssertionError("accepted a pattern of shape %r" % (getattr(x, "shape", None),))
    try:
        MasterPattern(t, laue_group=1).normalize("nonsense")
    except ValueError:
        return []
    raise AssertionError("accepted an unknown normalisation")


@sub("read", st.fixed_dictionaries({"sites": st.integers(1, 3), "energies": st.integers(1, 4), "n": st.integers(1, 6),
                                    "mc": st.integers(1, 5), "sg": st.integers(1, 230), "seed": gen.seeds()}), quick=60,
     nontrivial=lambda c: c["energies"] > 1)
def _read(c):
    import h5py
    from ebsdtorch.io.read_master_pattern import read_master_pattern
    from checks.c12 import laue_of_space_group
    r = gen.rng(c["seed"])
    acc = r.randint(0, 100, (c["mc"], c["mc"], c["energies"])).astype("u4")
    acc[0, 0, 0] += 1
    s = 2 * c["n"] + 1
    nh = r.rand(c["sites"], c["energies"], s, s).astype("f4")
    sh = r.rand(c["sites"], c["energies"], s, s).astype("f4")
    fd, path = tempfile.mkstemp(suffix=".h5")
    os.close(fd)
    try:
        with h5py.File(path, "w") as f:
            f["EMData/MCOpenCL/accum_e"] = acc
            f["EMData/EBSDmaster/mLPNH"] = nh
            f["EMData/EBSDmaster/mLPSH"] = sh
            f["CrystalData/SpaceGroupNumber"] = np.array([c["sg"]], dtype="i4")
        mp = read_master_pattern(path)
    finally:
        os.remove(path)
    w = acc.astype(float).sum((0, 1))
    w /= w.sum()
    e = np.concatenate([np.einsum("e,sehw->hw", w, nh.astype(float)), np.einsum("e,sehw->hw", w, sh.astype(float))], -1)
    close(N(mp.master_pattern), e, 1e-4, "energy-weighted master pattern")
    assert mp.laue_group == laue_of_space_group(c["sg"]), "Laue group %r of space group %d" % (mp.laue_group, c["sg"])
    return ["sites%d" % c["sites"]]


@sub("hrebsd", st.fixed_dictionaries({"img": patterns(2), "B": st.integers(1, 4), "P": st.integers(1, 30), "seed": gen.seeds(), "dt": gen.dtypes(), "bin": st.sampled_from([1, 1, 2])}),
     quick=100, nontrivial=lambda c: c["P"] > 1)
def _hrebsd(c):
    """patterns for strain analysis are lookups along the given unit directions"""
    mp, ref = make(c["img"], c["dt"])
    v = gen.rng(c["seed"]).normal(size=(c["B"], c["P"], 3))
    v /= np.linalg.norm(v, axis=-1, keepdims=True)
    x = T(v, c["dt"])
    if c["bin"] > 1 and (c["img"]["H"] % c["bin"] or c["img"]["W"] % c["bin"]):
        c["bin"] = 1
    o = project_hrebsd(mp, x, virtual_binning=c["bin"])
    assert tuple(o.shape) == (c["B"], c["P"]) and o.dtype == x.dtype, "shape %s" % (tuple(o.shape),)
    span = float(ref.max() - ref.min()) + 1e-12
    if c["bin"] == 1:
        e = interp(ref, v)
    else:
        e = N(mp.interpolate(x, virtual_binning=c["bin"]))
    judge = np.abs(v[..., 2]) > 1e-4
    judge &= np.abs(v[..., 2]) < 1 - 1e-5
    close(N(o)[judge], e[judge], {"f64": 1e-6, "f32": 4e-3}[c["dt"]] * span * max(c["img"]["H"], c["img"]["W"]) / 4 + 1e-9, "pattern value")
    return ["bin%d" % c["bin"], c["dt"]]


# the batch law for lookups: one pattern for the whole run, so that what it remembers of earlier batches would show
_r = gen.rng(11)
_yy, _xx = np.mgrid[0:24, 0:24] / 23.0
_MP = {dt: MasterPattern(torch.tensor(np.concatenate([np.sin(3 * _xx + 2 * _yy), np.cos(2 * _xx - 3 * _yy)], 1), dtype=DT[dt]), laue_group=11) for dt in ("f32", "f64")}
_mp = lambda v: _MP["f64" if v.dtype == torch.float64 else "f32"]


def _off(r, n):  # away from the equator, where the hemispheres meet
    v = batch.dirs(r, n)
    v[:, 2] = np.where(np.abs(v[:, 2]) < 0.05, 0.05, v[:, 2])
    return [v * r.uniform(0.5, 2, (n, 1))]


batch.add({
    "interpolate": {"fn": lambda v, m, b: _mp(v).interpolate(v, mode=m, virtual_binning=b), "make": _off, "opts": [("bilinear", 1), ("bilinear", 2), ("bicubic", 1), ("bilinear", 3)]},
    "interpolate with aligned corners": {"fn": lambda v, m, b: _mp(v).interpolate(v, mode=m, virtual_binning=b, align_corners=True), "make": _off, "opts": [("bilinear", 1), ("bilinear", 2)]},
}, quick=150)


finish_module(globals())
