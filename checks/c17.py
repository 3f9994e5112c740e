"""C17 pattern-centre fitter: the reported pattern centre and orientations win the stated search."""
import contextlib
import io

import numpy as np
import torch
from numpy.lib.stride_tricks import sliding_window_view

from vlib import gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import N, T, close
from checks.c10 import oracle
from checks.c11 import image, interp
from checks.c15 import binned, lut
from checks.c18 import mi_of

from ebsdtorch.ebsd.fitting import spatial_fft_pc_fitter
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle

RULE = ("A case is a detector of 3-10 x 3-10 blocks (binning 1-3), a search range for the pattern centre (also lopsided), 1-3 distances, tilts, "
        "a master pattern and 1-3 patterns simulated at a pattern centre of the search grid or random; non-trivial when the range "
        "holds more than one pattern centre.")
ASSUMPTIONS = ["tilts are generic, so that no simulated direction lies exactly on the equator where the two hemispheres meet",
               "oracle: exhaustive search over every pattern centre of the grid and every dictionary orientation, simulated in float64 with the "
               "geometry oracle of C10 at that pattern centre", "mutual-information scores judged on 4 bins with values off the bin edges up to rounding"]
CPU = torch.device("cpu")


@st.composite
def fits(draw):
    b = draw(st.sampled_from([1, 1, 1, 2, 3]))
    metric = draw(st.sampled_from(["dot", "dot", "mi"]))
    hi = 10 if metric == "dot" else 6
    shp = [b * draw(st.integers(3, hi)), b * draw(st.integers(3, hi))]
    rngs = draw(st.sampled_from([[0.0, 1.0, 0.0, 1.0], [0.29, 1.0, 0.11, 0.71], [0.11, 0.61, 0.44, 1.31], [0.39, 0.61, 0.19, 0.56], [0.46, 0.54, 0.46, 0.54]]))
    return {"bin": b, "shape": shp, "range": rngs, "metric": metric, "z": [draw(st.sampled_from([0.4, 0.6])), draw(st.sampled_from([0.65, 0.9]))],
            "nz": draw(st.integers(1, 3)) if metric == "dot" else 1, "prim": draw(st.sampled_from([67.3, 58.1, 3.7, -71.3])),
            "sec": draw(st.sampled_from([0.9, 0.9, 8.3, -29.7])), "res": draw(st.sampled_from([26.0, 34.0, 45.0])) if metric == "dot" else 45.0,
            "laue": draw(st.sampled_from([11, 9, 7, 4, 2, 1, 10])) if metric == "dot" else draw(st.sampled_from([11, 9])),
            "batch": draw(st.sampled_from([1000, 64, 7])), "n": draw(st.integers(1, 3)) if metric == "dot" else 1,
            "content": draw(st.sampled_from(["sim", "sim", "sim", "noise"])), "mpn": draw(st.integers(6, 16)),
            "kind": draw(st.sampled_from(["random", "random", "smooth", "halves"])), "negative": draw(st.integers(0, 5)) == 0, "seed": draw(gen.seeds())}


def onehot(v):
    return np.minimum((4 * v).astype(int), 3)


@sub("fit", fits(), quick=110, thorough=2500, nontrivial=lambda c: min(c["shape"]) > 4 * c["bin"])
def _fit(c):
    r = gen.rng(c["seed"])
    b, (H, W) = c["bin"], c["shape"]
    h, w = H // b, W // b
    n = b * (c["mpn"] // b)
    img = image(c["kind"], n, n, c["seed"])
    img = (img - img.min()) / max(1e-9, img.max() - img.min())
    if c["negative"] and c["metric"] == "dot":
        img = img - 3.0
    img = N(T(img, "f32"))
    mp = MasterPattern(T(img, "f32"), laue_group=c["laue"])
    small = binned(img, b)
    quats = N(sample_ori_fz_laue_angle(c["laue"], c["res"], CPU, permute=False))
    lo_x, hi_x, lo_y, hi_y = c["range"]
    zs = np.linspace(c["z"][0], c["z"][1], c["nz"])
    # pattern centres of the grid: whole (binned) pixels away from the middle, inside the range
    eps = 1e-9
    ks = [np.arange(-int((0.5 - lo) * s + eps), int((hi - 0.5) * s + eps) + 1) for lo, hi, s in ((lo_y, hi_y, h), (lo_x, hi_x, w))]
    ky, kx = ks
    ay, ax = np.arange(-ky.max(), h - ky.min()), np.arange(-kx.max(), w - kx.min())
    px = np.stack(np.meshgrid(ay * b + 0.5 * (b - 1), ax * b + 0.5 * (b - 1), indexing="ij"), -1).reshape(-1, 2)
    S = []
    for z in zs:
        R, t = oracle([0.5, 0.5, z], -c["prim"], c["sec"], (H, W))
        d = np.concatenate([px, np.zeros((len(px), 1))], -1) @ R[0].T + t[0]
        d /= np.linalg.norm(d, axis=-1, keepdims=True)
        S.append(np.stack([interp(small, rot.qrot(q, d)) for q in quats]).reshape(len(quats), len(ay), len(ax)))
    # patterns at full resolution, simulated at their own pattern centre
    true = (int(r.randint(len(zs))), int(r.choice(ky)), int(r.choice(kx)))
    full = np.stack(np.meshgrid(np.arange(H), np.arange(W), indexing="ij"), -1).reshape(-1, 2).astype(float)
    R, t = oracle([0.5 + true[2] / w, 0.5 + true[1] / h, zs[true[0]]], -c["prim"], c["sec"], (H, W))
    d = np.concatenate([full, np.zeros((len(full), 1))], -1) @ R[0].T + t[0]
    d /= np.linalg.norm(d, axis=-1, keepdims=True)
    pats = np.stack([interp(img, rot.qrot(quats[r.randint(len(quats))], d)) for _ in range(c["n"])]).reshape(c["n"], 1, H, W)
    if c["content"] == "noise":
        pats = r.rand(c["n"], 1, H, W)
    pats = pats * 3 + 1
    P = N(T(pats, "f32")).reshape(c["n"], h, b, w, b).mean(axis=(2, 4))
    if (P.reshape(c["n"], -1).max(-1) - P.reshape(c["n"], -1).min(-1)).min() < 1e-3:
        return ["flat"]
    P = P - P.min(axis=(1, 2), keepdims=True)
    P = P / P.max(axis=(1, 2), keepdims=True)
    tp = T(pats, "f32")
    keep = tp.clone()
    torch.manual_seed(c["seed"] % 2**31)
    with contextlib.redirect_stdout(io.StringIO()):
        pc, qs = spatial_fft_pc_fitter(mp, tp, lo_x, hi_x, lo_y, hi_y, c["z"][0], c["z"][1], c["nz"], c["prim"], c["sec"], c["res"],
                                       c["batch"], b, c["metric"])
    assert torch.equal(tp, keep), "patterns modified"
    pc, qs = N(pc), N(qs)
    assert qs.shape == (c["n"], 4), "orientations %s for %d patterns" % (qs.shape, c["n"])
    found = lut(qs, quats, "orientation")
    gx, gy = (pc[0] - 0.5) * w, (pc[1] - 0.5) * h
    jx, jy, jz = int(round(gx)), int(round(gy)), int(np.abs(zs - pc[2]).argmin())
    assert abs(gx - jx) < 1e-3 and abs(gy - jy) < 1e-3 and abs(zs[jz] - pc[2]) < 1e-5, "pattern centre %r is not on the grid" % pc.tolist()
    assert jx in kx and jy in ky, "pattern centre %r outside the range %r" % (pc.tolist(), c["range"])

    if c["metric"] == "dot":
        Z = P - P.mean(axis=(1, 2), keepdims=True)
        score = np.zeros((len(zs), c["n"], len(quats), len(ky), len(kx)))
        for i in range(len(zs)):
            win = sliding_window_view(S[i], (h, w), axis=(1, 2))  # (dict, sy, sx, h, w); start sy <-> ky = ky.max() - sy
            win = win[:, ::-1, ::-1]
            score[i] = np.einsum("dyxhw,nhw->ndyx", win, Z)
        tol = 4e-3 * np.abs(Z).sum() / c["n"] * max(1e-6, img.max() - img.min()) + 1e-4 * np.abs(img).max() * np.abs(Z).sum() / c["n"]
    else:
        lv, pv = onehot(S[0]), onehot(P[0])
        win = sliding_window_view(lv, (h, w), axis=(1, 2))[:, ::-1, ::-1]
        edge = sliding_window_view(np.abs(S[0] * 4 - np.round(S[0] * 4)) < 3e-3, (h, w), axis=(1, 2))[:, ::-1, ::-1].any(axis=(-1, -2))
        score = np.zeros((1, 1, len(quats), len(ky), len(kx)))
        for i in np.ndindex(*win.shape[:3]):
            score[(0, 0) + i] = mi_of(win[i].ravel(), pv.ravel(), 4, 4)
        near = np.abs(P[0] * 4 - np.round(P[0] * 4))
        if ((near < 1e-4) & (P[0] > 1e-6) & (P[0] < 1 - 1e-6)).any():
            return ["edge"]
        # simulated values next to a bin edge may fall on either side: their score is only a guess
        sure = ~edge
        best = np.where(sure, score[0, 0], -1).max()
        k = (found[0], list(ky).index(jy), list(kx).index(jx))
        if sure[k]:
            assert score[0, 0][k] >= best - 1e-4, "mutual information %r of the result, %r elsewhere" % (score[0, 0][k], best)
        return ["mi", "sure" if sure[k] else "unsure"]
    best = score.max(axis=2).mean(axis=1)
    iy, ix = list(ky).index(jy), list(kx).index(jx)
    top = np.unravel_index(best.argmax(), best.shape)
    assert best[jz, iy, ix] >= best.max() - 2 * tol, "pattern centre %r scores %r, but %r scores %r (patterns simulated at %r)" % (
        pc.tolist(), best[jz, iy, ix], [0.5 + kx[top[2]] / w, 0.5 + ky[top[1]] / h, zs[top[0]]], best.max(),
        [0.5 + true[2] / w, 0.5 + true[1] / h, zs[true[0]]])
    for i in range(c["n"]):
        s = score[jz, i, :, iy, ix]
        one = 2 * tol * max(1.0, np.abs(Z[i]).sum() * c["n"] / np.abs(Z).sum())
        assert s[found[i]] >= s.max() - one, "orientation of pattern %d scores %r, the best %r" % (i, s[found[i]], s.max())
    return ["dot", "recovered" if (jz, jy, jx) == true else "other", "bin%d" % b, c["content"]]


finish_module(globals())
