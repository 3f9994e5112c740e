"""C15 dictionary indexing: the reported orientation is the best match over the whole dictionary."""
import contextlib
import io

import numpy as np
import torch

from vlib import gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import DT, N, T, close
from checks.c09 import expm, twist
from checks.c10 import oracle
from checks.c11 import image, interp

from ebsdtorch.ebsd import indexing as IX
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle

RULE = ("A case is 1-3 phases (Laue group, master pattern), a detector geometry, a scan of simulated (noisy) or random patterns and "
        "indexing options (chunk sizes, mask, mean subtraction, binning, top-k, metric, dtype, quantisation), run once or twice on "
        "the same scan; non-trivial when the dictionary has at least 20 orientations and 4 pixels.")
ASSUMPTIONS = ["tilts are generic, so that no simulated direction lies exactly on the equator where the two hemispheres meet",
               "patterns simulated in float64 NumPy from the geometry, rotation and lookup oracles of C01, C10 and C11",
               "the dictionary is the fundamental-zone sample checked by C04; average_pattern_center=False is not implemented and not claimed"]
CPU = torch.device("cpu")


@st.composite
def scans(draw):
    vb = draw(st.sampled_from([1, 1, 1, 2, 3]))
    shp = [vb * draw(st.integers(1, 6)), vb * draw(st.integers(1, 6))]
    runs = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        runs.append({
            "phases": [{"laue": draw(st.integers(1, 11)), "H": draw(st.integers(6, 20)), "W": draw(st.integers(6, 20)),
                        "kind": draw(st.sampled_from(["random", "random", "smooth", "delta"])), "seed": draw(gen.seeds())}
                       for _ in range(draw(st.sampled_from([1, 1, 2, 3])))],
            "res": draw(st.sampled_from([20.0, 26.0, 34.0, 45.0])), "topk": draw(st.integers(1, 4)),
            "metric": draw(st.sampled_from(["angular", "angular", "angular", "euclidean", "manhattan"])),
            "dt": draw(st.sampled_from(["f32", "f32", "f64", "f16"])), "quant": draw(st.sampled_from([False, False, True])),
            "ec": draw(st.sampled_from([1, 2, 3, 5, 1000])), "dc": draw(st.sampled_from([1000, 64, 37, 7])),
            "sub": draw(st.booleans()), "mask": draw(st.sampled_from(["none", "none", "half", "rand"]))})
    nd = draw(st.integers(1, 3))
    return {"shape": shp, "vb": vb, "lead": [draw(gen.size(1, 3, 8, rare=12)) for _ in range(nd - 1)],
            "tilts": [draw(st.sampled_from([0.7, 3.1, -8.3])), draw(st.sampled_from([0.0, 5.3, 9.9])), draw(st.sampled_from([70.3, 59.2, -71.1]))],
            "pc": [draw(st.floats(0.2, 0.8)), draw(st.floats(0.0, 0.8)), draw(st.floats(0.4, 1.0))],
            "vec": draw(st.booleans()), "opt": draw(st.booleans()), "content": draw(st.sampled_from(["sim", "sim", "noise", "offset"])),
            "seed": draw(gen.seeds()), "runs": runs}


def binned(img, b):
    if b == 1:
        return img
    H, W = img.shape[0], img.shape[1] // 2
    # only sizes that the binning divides exactly are generated
    return img.reshape(H // b, b, 2 * W // b, b).mean(axis=(1, 3))


def setup(c):
    shp = tuple(c["shape"])
    vec = np.array([0.02, -0.03, 0.05, 0.4, -0.3, 0.2]) if c["vec"] else np.zeros(6)
    g = EBSDGeometry(shp, tuple(c["tilts"]), tuple(c["pc"]), T(vec, "f32") if c["vec"] else None,
                     (True,) * 3 if c["opt"] else (False,) * 3, (True,) * 3 if c["opt"] else (False,) * 3)
    R, t = oracle(c["pc"], c["tilts"][2] - c["tilts"][1], c["tilts"][0], shp)
    M = np.eye(4)
    M[:3, :3], M[:3, 3] = R[0], t[0]
    if c["opt"]:
        M = M @ expm(twist(vec))
    b = c["vb"]
    px = np.stack(np.meshgrid(np.arange(shp[0]), np.arange(shp[1]), indexing="ij"), -1).astype(float)
    blk = px.reshape(shp[0] // b, b, shp[1] // b, b, 2).mean(axis=(1, 3)).reshape(-1, 2)
    d = np.concatenate([blk, np.zeros((len(blk), 1))], -1) @ M[:3, :3].T + M[:3, 3]
    full = np.concatenate([px.reshape(-1, 2), np.zeros((shp[0] * shp[1], 1))], -1) @ M[:3, :3].T + M[:3, 3]
    nrm = lambda v: v / np.linalg.norm(v, axis=-1, keepdims=True)
    return g, nrm(d), nrm(full)


def phase(p, vb):
    H, W = vb * (p["H"] // vb), vb * (p["W"] // vb)
    img = image(p["kind"], H, W, p["seed"])
    return MasterPattern(T(img, "f32"), laue_group=p["laue"]), N(T(img, "f32"))


def dots(D, E, metric):
    if metric == "angular":
        return E @ D.T
    if metric == "euclidean":
        return ((E[:, None] - D[None]) ** 2).sum(-1)
    return np.abs(E[:, None] - D[None]).sum(-1)


def scan(c, first, full):
    """experiment patterns (n, H*W) float64 made of the first phase"""
    n = int(np.prod(c["lead"])) if c["lead"] else 1
    r = gen.rng(c["seed"])
    q = r.randn(n, 4)
    q /= np.linalg.norm(q, axis=-1, keepdims=True)
    if c["content"] == "noise":
        e = r.rand(n, len(full))
    else:
        e = np.stack([interp(first, rot.qrot(k, full)) for k in q]) + 0.05 * r.rand(n, len(full))
    return e + (3.0 if c["content"] == "offset" else 0.0)


def make_scan(c, E):
    return ExperimentPatterns(T(E, "f32").reshape(*c["lead"], *c["shape"]) if c["lead"] else T(E, "f32").reshape(1, *c["shape"]))


def masked(c, run, n):
    if run["mask"] == "none":
        return None
    if run["mask"] == "half":
        m = np.arange(n) % 2 == 0
    else:
        m = gen.rng(c["seed"] + 5).rand(n) < 0.6
        m[0] = True
    return m


def queries(c, run, E, m):
    b = c["vb"]
    H, W = c["shape"]
    e = E.reshape(-1, H // b, b, W // b, b).mean(axis=(2, 4)).reshape(len(E), -1)
    e = e if m is None else e[:, m]
    return e - e.mean(-1, keepdims=True) if run["sub"] else e


def simulate(img, vb, quats, d, m):
    D = np.stack([interp(binned(img, vb), rot.qrot(k, d)) for k in quats])
    D = D if m is None else D[:, m]
    return D - D.mean(-1, keepdims=True)


def lut(q, quats, what):
    """index of each row of q in the dictionary"""
    k = (np.abs(q @ quats.T)).argmax(-1)
    close(np.abs((q * quats[k]).sum(-1)), np.ones(len(q)), 1e-6, what + ": not in the dictionary")
    return k


def tolerance(run, D, E, metric, quant):
    a, b, n = np.abs(D).max() + 1e-6, np.abs(E).max() + 1e-6, D.shape[1]
    scale = {"angular": a * b * n, "euclidean": (a + b) ** 2 * n, "manhattan": (a + b) * n}[metric]
    # the simulation itself is single precision: a lookup next to the pole or a hemisphere seam is good to 1e-3
    base = 3e-3 * {"angular": a * b * n, "euclidean": 2 * (a + b) * a * n, "manhattan": a * n}[metric]
    return base + (0.05 if quant else {"f64": 1e-5, "f32": 1e-5, "f16": 8e-3}[run["dt"]]) * scale


@sub("index", scans(), quick=80, thorough=2000, nontrivial=lambda c: c["shape"][0] * c["shape"][1] >= 4 * c["vb"] ** 2)
def _index(c):
    g, d, full = setup(c)
    first = phase(c["runs"][0]["phases"][0], c["vb"])[1]
    E = scan(c, first, full)
    ex = make_scan(c, E)
    E = N(ex.patterns).reshape(len(E), -1)
    n = len(E)
    keep = ex.patterns.clone()
    for run in c["runs"]:
        ph = [phase(p, c["vb"]) for p in run["phases"]]
        m = masked(c, run, len(d))
        mt = None if m is None else torch.tensor(m).reshape(c["shape"][0] // c["vb"], -1)
        torch.manual_seed(c["seed"] % 2**31)
        with contextlib.redirect_stdout(io.StringIO()):
            IX.dictionary_index_orientations(
                [p[0] for p in ph] if len(ph) > 1 else ph[0][0], g, ex, signal_mask=mt, subtract_exp_pat_mean=run["sub"],
                experiment_chunk_size=run["ec"], dictionary_resolution_degrees=run["res"], dictionary_chunk_size=run["dc"],
                virtual_binning=c["vb"], top_k_matches=run["topk"], distance_metric=run["metric"], match_dtype=DT[run["dt"]],
                quantized_if_x86=run["quant"])
        judge(c, run, ex, ph, E, d, m, lambda img, q: simulate(img, c["vb"], q, d, m), queries(c, run, E, m))
        assert torch.equal(ex.patterns, keep), "patterns modified"
    return [run["metric"], "int8" if run["quant"] else run["dt"], "%dphase" % len(run["phases"]), "vb%d" % c["vb"], "mask" if m is not None else "nomask"]


def judge(c, run, ex, ph, E, d, m, sim, Q, proj=None):
    """every reported match is a dictionary entry, carries its metric, and none is better"""
    n = len(E)
    metric = run["metric"]
    quant = run["quant"] and metric == "angular"
    sgn = -1.0 if metric == "angular" else 1.0
    best, tols = [], []
    ori, bm, phases = N(ex.get_orientations()).reshape(n, 4), N(ex.best_metrics).reshape(-1), N(ex.phases).reshape(-1).astype(int)
    assert len(bm) == n and len(phases) == n, "results for %d of %d patterns" % (len(bm), n)
    assert set(phases) <= set(range(len(ph))), "phases %r of %d" % (sorted(set(phases)), len(ph))
    vals = np.zeros((len(ph), n))
    for i, (mp, img) in enumerate(ph):
        quats = N(sample_ori_fz_laue_angle(mp.laue_group, run["res"], CPU, permute=False))
        D = sim(img, quats)
        P = np.eye(D.shape[1]) if proj is None else proj[i]
        Dp, Qp = D @ P, Q @ P
        S = dots(Dp, Qp, metric)
        tol = tolerance(run, D, Q, metric, quant)
        tols.append(tol)
        q, v = ex.raw_indexing_results[i]
        q, v = N(q), N(v)
        assert q.shape == (n, run["topk"], 4) and v.shape == (n, run["topk"]), "raw results %s, %s" % (q.shape, v.shape)
        for j in range(n):
            k = lut(q[j], quats, "pattern %d, phase %d" % (j, i))
            assert len(set(k.tolist())) == len(k), "pattern %d: the same orientation twice in the top matches" % j
            close(v[j], S[j, k], tol, "pattern %d, phase %d: metric of the match" % (j, i))
            close(np.sort(sgn * S[j, k]), np.sort(sgn * S[j])[:run["topk"]], 2 * tol, "pattern %d, phase %d: best metrics" % (j, i))
            assert (np.diff(sgn * v[j]) >= 0).all(), "matches not sorted from the best"
        vals[i] = v[:, 0]
    for j in range(n):
        i = phases[j]
        close(bm[j], vals[i, j], 2e-3 * (1 + abs(vals[i, j])) if run["dt"] == "f16" else 1e-5 * (1 + abs(vals[i, j])), "best metric of pattern %d" % j)
        close(np.abs(ori[j] @ N(ex.raw_indexing_results[i][0])[j, 0]), 1.0, 1e-5, "orientation of pattern %d is not its best match" % j)
        assert sgn * vals[i, j] <= (sgn * vals[:, j]).min() + 1e-5 * (1 + np.abs(vals[:, j]).max()), "pattern %d: phase %d chosen from %r" % (j, i, vals[:, j].tolist())


@st.composite
def pca_scans(draw):
    c = draw(scans())
    c["shape"] = [c["vb"] * draw(st.integers(2, 4)), c["vb"] * draw(st.integers(2, 4))]
    for r in c["runs"]:
        r["comp"] = draw(st.sampled_from([1, 2, 3, 4, 100, 100]))
        r["learn"] = draw(st.sampled_from([r["res"], r["res"], 26.0, 45.0]))
        r["phases"] = r["phases"][:2]
    return c


@sub("pca", pca_scans(), quick=50, thorough=1200, nontrivial=lambda c: any(r["comp"] < 100 for r in c["runs"]))
def _pca(c):
    g, d, full = setup(c)
    E = scan(c, phase(c["runs"][0]["phases"][0], c["vb"])[1], full)
    ex = make_scan(c, E)
    E = N(ex.patterns).reshape(len(E), -1)
    lab = []
    for run in c["runs"]:
        ph = [phase(p, c["vb"]) for p in run["phases"]]
        m = masked(c, run, len(d))
        mt = None if m is None else torch.tensor(m).reshape(c["shape"][0] // c["vb"], -1)
        sim = lambda img, q: simulate(img, c["vb"], q, d, m)
        Q = queries(c, run, E, m)
        proj, clear = [], True
        for mp, img in ph:
            L = sim(img, N(sample_ori_fz_laue_angle(mp.laue_group, run["learn"], CPU, permute=False)))
            w, V = np.linalg.eigh(np.cov(L.T) if L.shape[1] > 1 else np.array([[np.var(L)]]))
            k = min(run["comp"], len(w))
            V = V[:, -k:]
            proj.append(V)
            # the subspace is only defined up to the gap between the eigenvalues kept and left
            if k < len(w) and w[-k] - w[-k - 1] < 0.05 * w[-1] + 1e-12:
                clear = False
            if run["metric"] == "manhattan" and k > 1:
                clear = False  # depends on the basis within the subspace, which degenerate eigenvalues leave open
        torch.manual_seed(c["seed"] % 2**31)
        with contextlib.redirect_stdout(io.StringIO()):
            IX.pca_dictionary_index_orientations(
                [p[0] for p in ph] if len(ph) > 1 else ph[0][0], g, ex, run["comp"], signal_mask=mt, subtract_exp_pat_mean=run["sub"],
                experiment_chunk_size=run["ec"], dictionary_resolution_learn_deg=run["learn"], dictionary_resolution_index_deg=run["res"],
                dictionary_chunk_size=run["dc"], virtual_binning=c["vb"], top_k_matches=run["topk"], distance_metric=run["metric"],
                match_dtype=DT[run["dt"]], quantized_via_ao=run["quant"])
        if clear:
            judge(c, run, ex, ph, E, d, m, sim, Q, proj)
            lab.append("judged")
        for i, (mp, img) in enumerate(ph):
            quats = N(sample_ori_fz_laue_angle(mp.laue_group, run["res"], CPU, permute=False))
            lut(N(ex.raw_indexing_results[i][0]).reshape(-1, 4), quats, "phase %d" % i)
    return lab + ["comp%d" % run["comp"], run["metric"]]


finish_module(globals())
