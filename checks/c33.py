"""C33 orientation refinement: every step takes the best match of its local grid, and nothing is made worse."""
import contextlib
import io
import math

import numpy as np
import torch

from vlib import gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import DT, N, T, close
from checks.c09 import expm, twist
from checks.c10 import oracle

from ebsdtorch.ebsd import refining as RF
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.s2_and_so3.laue_fz_ori import ori_to_fz_laue
from ebsdtorch.s2_and_so3.laue_generators import laue_elements

RULE = ("A case is a detector, 1-2 phases (Laue group, master pattern), 1-6 patterns simulated near their starting orientations, a local grid (extent, radius, kind), shrink "
        "factor, batch sizes and number of iterations; non-trivial when some orientation moves.")
ASSUMPTIONS = ["the match of an orientation is the inner product of the zero-mean patterns (grid) or their correlation (gradient) under MasterPattern.interpolate, which C11 judges",
               "the reduction to the fundamental zone is that of C04; a step whose two best candidates tie within rounding is not judged",
               "gradient refinement is judged by its guarantees (never worse, unit, in the zone, mostly better on smooth patterns), not by its path"]
HALF = math.pi ** (2 / 3) / 2


def local_grid(deg, k, axial):
    h = HALF * deg / 180 / max(k, 1)
    g = np.stack(np.meshgrid(*[np.arange(-k, k + 1)] * 3, indexing="ij"), -1).reshape(-1, 3)
    zeros = (g == 0).sum(-1)
    return h * g[zeros >= {3: 0, 2: 1, 1: 2}[axial]]


@sub("grid", st.fixed_dictionaries({"deg": st.one_of(st.sampled_from([0.1, 0.5, 1.0, 2.0, 5.0, 7.3, 45.0, 180.0]), st.floats(0.01, 90)), "k": st.integers(0, 8), "axial": st.integers(1, 3)}),
     quick=300, thorough=5000, nontrivial=lambda c: c["k"] > 0)
def _grid(c):
    g = N(RF.get_local_orientation_grid(c["deg"], c["k"], c["axial"]))
    e = local_grid(c["deg"], c["k"], c["axial"])
    assert g.shape == e.shape, "%s points instead of %s" % (g.shape, e.shape)
    close(g[np.lexsort(np.round(g / c["deg"], 7).T)], e[np.lexsort(np.round(e / c["deg"], 7).T)], 1e-6 * c["deg"], "grid")
    close(g[(len(g) - 1) // 2], np.zeros(3), 0.0, "centre of the grid")
    return ["axial%d" % c["axial"], "k%d" % c["k"]]


@sub("grid_errors", st.fixed_dictionaries({"axial": st.sampled_from([0, 4, -1])}), quick=6, thorough=20)
def _grid_err(c):
    try:
        RF.get_local_orientation_grid(1.0, 1, c["axial"])
    except Exception:  # noqa: BLE001  TorchScript raises its own error type
        return []
    raise AssertionError("axial dimension %d accepted" % c["axial"])


@st.composite
def scans(draw, grad=False):
    vb = draw(st.sampled_from([1, 1, 1, 2]))
    c = {"shape": [vb * draw(st.integers(4, 7)), vb * draw(st.integers(4, 7))], "vb": vb, "n": draw(gen.size(1, 6, 11, 20, rare=15)),
         "tilts": [draw(st.sampled_from([0.7, 3.1])), draw(st.sampled_from([5.3, 9.9])), draw(st.sampled_from([70.3, 59.2]))],
         "pc": [draw(st.floats(0.3, 0.7)), draw(st.floats(0.1, 0.7)), draw(st.floats(0.4, 0.9))],
         "phases": [{"laue": draw(st.integers(1, 11)), "H": vb * draw(st.integers(6, 14)), "W": vb * draw(st.integers(6, 14)), "kind": draw(st.sampled_from(["waves", "waves", "random"]))}
                    for _ in range(draw(st.sampled_from([1, 1, 2, 3])))],
         "off": draw(st.sampled_from([0.0, 0.3, 1.0, 3.0])), "noise": draw(st.sampled_from([0.0, 0.05, 1.0])), "bias": draw(st.sampled_from([0.0, 5.0])), "source": draw(st.sampled_from(["point", "point", "scan"])),
         "batch": [draw(st.sampled_from([1, 2, 3, 100])) for _ in range(2)], "dtype": draw(st.sampled_from(["f32", "f32", "f32", "f64", "f16"])), "seed": draw(gen.seeds())}
    if grad:
        c.update(iters=draw(st.sampled_from([1, 5, 20])), lr=draw(st.sampled_from([1e-3, 1e-4, 1e-2])))
    else:
        c.update(iters=draw(st.integers(1, 4)), deg=draw(st.sampled_from([0.5, 1.0, 2.0, 4.0])), k=draw(st.sampled_from([1, 1, 2, 3, 0])), axial=draw(st.sampled_from([3, 2, 1])),
                 shrink=draw(st.sampled_from([0.5, 0.25, 1.0])))
        if c["k"] == 3:
            c["axial"] = min(c["axial"], 2)
    return c


def waves(H, W, r):
    """smooth master pattern: a few plane waves on each hemisphere"""
    y, x = np.mgrid[0:H, 0:W] / max(H, W)
    return np.concatenate([sum(r.randn() * np.cos(2 * math.pi * (r.randint(1, 4) * x * r.choice([1, -1]) + r.randint(1, 4) * y) + r.rand() * 6) for _ in range(4)) for _ in "ns"], 1)


class World:
    def __init__(self, c):
        self.c, r = c, gen.rng(c["seed"])
        shp, b = c["shape"], c["vb"]
        self.g = EBSDGeometry(tuple(shp), tuple(c["tilts"]), tuple(c["pc"]), None, (False,) * 3, (False,) * 3)
        R, t = oracle(c["pc"], c["tilts"][2] - c["tilts"][1], c["tilts"][0], tuple(shp))
        px = np.stack(np.meshgrid(np.arange(shp[0]), np.arange(shp[1]), indexing="ij"), -1).astype(float)
        blk = px.reshape(shp[0] // b, b, shp[1] // b, b, 2).mean(axis=(1, 3)).reshape(-1, 2)
        self.d = np.concatenate([blk, np.zeros((len(blk), 1))], -1) @ R[0].T + t[0]
        dfull = np.concatenate([px.reshape(-1, 2), np.zeros((shp[0] * shp[1], 1))], -1) @ R[0].T + t[0]
        n = c["n"]
        self.pos = r.uniform(-1, 1, (n, 2)) * max(shp) * 0.3 if c["source"] == "scan" else np.zeros((n, 2))
        self.mps = []
        for p in c["phases"]:
            img = r.rand(p["H"], 2 * p["W"]) if p["kind"] == "random" else waves(p["H"], p["W"], r)
            self.mps.append(MasterPattern(T(img, "f32"), laue_group=p["laue"]))
        self.ph = r.randint(len(self.mps), size=n)
        q = r.randn(n, 4)
        q /= np.linalg.norm(q, axis=-1, keepdims=True)
        true = np.stack([self.reduce(q[i:i + 1], i)[0] for i in range(n)])
        ax = r.randn(n, 3)
        ax /= np.linalg.norm(ax, axis=-1, keepdims=True)
        a = np.radians(c["off"]) * r.rand(n) / 2
        start = rot.qmul(np.concatenate([np.cos(a)[:, None], np.sin(a)[:, None] * ax], 1), true)
        self.start = N(T(start, "f32"))
        pats = []
        for i in range(n):
            v = dfull - np.append(self.pos[i], 0)
            s = self.look(i, rot.qrot(true[i], v / np.linalg.norm(v, axis=-1, keepdims=True)), "bilinear", 1)
            pats.append(s + c["noise"] * s.std() * r.randn(len(s)) + c["bias"])
        self.pats = T(np.stack(pats), "f32").reshape(n, *shp)
        e = N(self.pats).reshape(n, shp[0] // b, b, shp[1] // b, b).mean(axis=(2, 4)).reshape(n, -1)
        self.e = e - e.mean(-1, keepdims=True)

    def reduce(self, q, i):
        return N(ori_to_fz_laue(T(q, "f64"), self.c["phases"][self.ph[i]]["laue"]))

    def look(self, i, v, mode, vb):
        with torch.no_grad():
            return N(self.mps[self.ph[i]].interpolate(T(v, "f32"), mode=mode, align_corners=True, normalize_coords=False, virtual_binning=vb))

    def sims(self, i, qs, mode="bilinear"):
        v = self.d - np.append(self.pos[i], 0)
        v /= np.linalg.norm(v, axis=-1, keepdims=True)
        v = np.stack([rot.qrot(q, v) for q in qs])
        # a direction within rounding of the equator may be looked up in either hemisphere
        self.equator = np.abs(v[..., 2]).min() < 3e-5
        s = self.look(i, v, mode, self.c["vb"])
        return s - s.mean(-1, keepdims=True)

    def scan(self):
        ex = ExperimentPatterns(self.pats.clone())
        ex.phases = torch.tensor(self.ph).to(torch.uint8)
        ex.set_orientations(T(self.start, "f32"))
        if self.c["source"] == "scan":
            ex.set_spatial_coords(T(self.pos, "f32"))
        return ex

    def run(self, fn, batch, iters, **kw):
        ex = self.scan()
        c = self.c
        with contextlib.redirect_stdout(io.StringIO()):
            o = fn(self.mps[0] if len(self.mps) == 1 else self.mps, self.g, ex, batch_size=batch, virtual_binning=c["vb"], n_iter=iters, average_pattern_center=c["source"] == "point",
                   match_dtype=DT[c["dtype"]], **kw)
        assert torch.equal(ex.patterns, self.pats), "patterns modified"
        q = N(ex.get_orientations())
        assert q.shape == (c["n"], 4) and np.isfinite(q).all(), "orientations"
        close(np.linalg.norm(q, axis=-1), np.ones(len(q)), 1e-5, "norm of the orientations")
        return q, o


EPS = {"f64": 1e-4, "f32": 1e-4, "f16": 3e-3}


@sub("steps", scans(), quick=120, thorough=4000, nontrivial=lambda c: c["off"] > 0 and c["k"] > 0, budget=60)
def _steps(c):
    w = World(c)
    kw = dict(grid_semi_edge_in_degrees=c["deg"], axial_grid_dimension=c["axial"], kernel_radius_in_steps=c["k"], shrink_factor=c["shrink"])
    n, K = c["n"], c["iters"]
    hist, dots = [], None
    for j in range(1, K + 1):
        q, dots = w.run(RF.orientation_grid_refinement, c["batch"][0], j, **kw)
        hist.append(q)
    other, _ = w.run(RF.orientation_grid_refinement, c["batch"][1], K, **kw)
    assert len(dots) == int(w.ph.max()) + 1, "matches of %d phases" % len(dots)
    base = local_grid(c["deg"], c["k"], c["axial"])
    moved = clear_all = 0
    for i in range(n):
        cur, scale, clear = w.start[i], 1.0, True
        rec = N(dots[w.ph[i]])
        assert rec.shape == (n, K), "matches of shape %s" % (rec.shape,)
        size = np.linalg.norm(w.e[i])
        for j in range(K):
            cand = np.stack([rot.ho2q(rot.cu2ho(x * scale)).reshape(4) if np.any(x) else np.array([1.0, 0, 0, 0]) for x in base])
            raw = rot.qmul(cand, cur[None])
            red = w.reduce(raw, i)
            S = w.sims(i, red)
            if w.equator:
                clear = False
                break
            sc = S @ w.e[i]
            tol = EPS[c["dtype"]] * size * (np.linalg.norm(S, axis=-1).max() + 1e-3) + 2e-4 * size * np.abs(S).max() * (c["phases"][w.ph[i]]["kind"] == "random")
            got = hist[j][i]
            dist = np.minimum(np.abs(red - got).max(-1), np.abs(red + got).max(-1))
            hit = int(dist.argmin())
            if dist[hit] > 5e-6:
                # reduced to another representative only where the choice is a tie
                eq = w.reduce(np.concatenate([raw, got[None]]), i)
                assert np.minimum(np.abs(eq[:-1] - eq[-1]).max(-1), np.abs(eq[:-1] + eq[-1]).max(-1)).min() < 3e-5 or boundary(w, raw, i), \
                    "pattern %d, step %d: %r is not on the local grid of %r" % (i, j, got.tolist(), cur.tolist())
                clear = False
                break
            assert sc[hit] >= sc.max() - 2 * tol, "pattern %d, step %d: match %.6g taken, %.6g is on the grid" % (i, j, sc[hit], sc.max())
            close(rec[i, j], sc[hit], 2 * tol + 1e-6, "pattern %d, step %d: recorded match" % (i, j))
            if (sc > sc.max() - 4 * tol).sum() > 1:
                clear = False
            if not clear and j + 1 < K:
                break
            mid = (len(base) - 1) // 2
            moved += hit != mid
            if hit == mid:
                scale *= c["shrink"]
            cur = got
        if clear:
            clear_all += 1
            close(np.minimum(np.abs(other[i] - hist[-1][i]).max(), np.abs(other[i] + hist[-1][i]).max()), 0.0, 5e-6, "pattern %d depends on the batch" % i)
    return [c["dtype"], "axial%d" % c["axial"], "moved" if moved else "still", "clear" if clear_all else "ties", c["source"]]


def boundary(w, raw, i):
    """whether a small turn of a candidate changes its representative"""
    a = w.reduce(raw, i)
    for ax in np.eye(3):
        for s in (1e-5, -1e-5):
            b = w.reduce(rot.qmul(np.concatenate([[1.0], s * ax])[None], raw), i)
            if np.abs(np.abs((a * b).sum(-1)) - 1).max() > 1e-6:
                return True
    return False


@sub("gradient", scans(True), quick=80, thorough=2500, nontrivial=lambda c: c["off"] > 0, budget=60)
def _grad(c):
    if c["dtype"] == "f16":
        c["dtype"] = "f32"
    w = World(c)
    q, _ = w.run(RF.orientation_grad_refinement, c["batch"][0], c["iters"], learning_rate=c["lr"])
    kept = better = able = 0
    for i in range(c["n"]):
        def score(x):
            s = w.sims(i, x[None], "bicubic")[0]
            return float(s @ w.e[i] / np.linalg.norm(s) / np.linalg.norm(w.e[i]))
        a, b = score(w.start[i]), score(q[i])
        same = min(np.abs(q[i] - w.start[i]).max(), np.abs(q[i] + w.start[i]).max()) < 1e-7
        if same:
            kept += 1
        else:
            r = w.reduce(q[i:i + 1], i)[0]
            close(min(np.abs(q[i] - r).max(), np.abs(q[i] + r).max()), 0.0, 2e-5, "pattern %d: outside the fundamental zone" % i) if not boundary(w, q[i:i + 1], i) else None
            names = rot.qmul(N(laue_elements(c["phases"][w.ph[i]]["laue"])), q[i][None])
            angle = 2 * np.degrees(np.arccos(min(1.0, np.abs(names @ w.start[i]).max())))
            if c["lr"] * c["iters"] <= 0.02:  # a step moves each component by the learning rate
                assert angle < 20, "pattern %d: turned by %.1f degrees" % (i, angle)
            # the reduction may only pick another name of the same orientation, whose pattern differs where the master pattern lacks the symmetry
            p = np.abs((q[i] * w.start[i]).sum())
            if p > math.cos(math.radians(20)):
                assert b >= a - 1e-5, "pattern %d: correlation %.6f became %.6f" % (i, a, b)
        if c["phases"][w.ph[i]]["kind"] == "waves" and a < 0.999 and c["noise"] < 1 and c["lr"] < 1e-2:
            able += 1
            better += not same
    if able >= 3:
        assert better, "none of %d orientations off by up to %g degrees was improved" % (able, c["off"])
    return ["kept" if kept else "all moved", "lr%g" % c["lr"], "able" if able else "at optimum"]


@sub("recovery", st.fixed_dictionaries({"seed": gen.seeds(), "laue": st.integers(1, 11), "method": st.just("gradient"), "n": st.integers(8, 11)}), quick=12, thorough=400, budget=60)
def _recovery(c):
    """patterns simulated from a smooth master pattern: the known orientations are approached"""
    full = {"shape": [9, 9], "vb": 1, "n": c["n"], "tilts": [0.7, 5.3, 70.3], "pc": [0.45, 0.4, 0.6], "phases": [{"laue": c["laue"], "H": 40, "W": 40, "kind": "waves"}], "off": 3.0, "noise": 0.0,
            "bias": 1.0, "source": "point", "dtype": "f32", "seed": c["seed"]}
    w = World(full)
    if c["method"] == "grid":
        q, _ = w.run(RF.orientation_grid_refinement, 2, 9, grid_semi_edge_in_degrees=1.5, axial_grid_dimension=3, kernel_radius_in_steps=1, shrink_factor=0.5)
    else:
        q, _ = w.run(RF.orientation_grad_refinement, 2, 60, learning_rate=1e-3)
    cor = lambda i, x: (lambda s: float(s @ w.e[i] / np.linalg.norm(s) / np.linalg.norm(w.e[i])))(w.sims(i, x[None])[0])
    gain = [(1 - cor(i, w.start[i])) - (1 - cor(i, q[i])) for i in range(c["n"])]
    left = [1 - cor(i, q[i]) for i in range(c["n"])]
    start = [1 - cor(i, w.start[i]) for i in range(c["n"])]
    off = [i for i in range(c["n"]) if start[i] > 1e-3]
    if len(off) < 6:  # single patterns may end at another optimum, so only the typical one is judged
        return ["at optimum"]
    assert np.median([left[i] / start[i] for i in off]) < 0.5, "%s refinement leaves mismatches %r of %r" % (c["method"], left, start)
    return [c["method"], "gain%d" % (sum(g > 0 for g in gain))]


finish_module(globals())
