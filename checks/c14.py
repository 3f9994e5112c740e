"""C14 experiment pattern store: a stateful model of patterns, metadata and indexing results."""
import numpy as np
import torch

from vlib import gen
from vlib.harness import finish_module, st, sub
from vlib.tu import N, T, close

from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.preprocessing.clahe import clahe_grayscale
from ebsdtorch.preprocessing.nlpar import nlpar

RULE = ("A case is a scan ((H,W), (N,H,W) or (SH,SW,H,W), contiguous or a cropped view) and a history of 2-12 operations on one "
        "ExperimentPatterns object; non-trivial when the history has at least three operations and two patterns.")
ASSUMPTIONS = ["reference model in NumPy float64 re-based on the object's patterns after every check",
               "patterns are float tensors; constant patterns are not standardised (undefined)"]

OPS = ["spatial", "spatial_idx", "ori", "ori_idx", "invf", "background", "minmax", "zeromean", "standard", "clahe", "nlpar",
       "clean", "patterns", "patterns", "raw", "raw", "combine", "bad", "phases"]


@st.composite
def cases(draw):
    h, w = 4 * draw(gen.size(1, 4, 10)), 4 * draw(gen.size(1, 4, 9))
    nd = draw(st.sampled_from([2, 3, 4, 4]))
    lead = [draw(gen.size(1, 4, 13)) for _ in range(nd - 2)]
    ops = [[draw(st.sampled_from(OPS)), draw(st.integers(0, 7)), draw(gen.seeds())] for _ in range(draw(st.integers(2, 12)))]
    return {"shape": lead + [h, w], "view": draw(st.booleans()), "seed": draw(gen.seeds()), "amp": draw(st.sampled_from([1.0, 255.0])),
            "ops": ops}


def expect_error(f, what):
    try:
        f()
    except (ValueError, IndexError):
        return
    raise AssertionError("%s accepted" % what)


@sub("history", cases(), quick=500, thorough=12000, nontrivial=lambda c: len(c["ops"]) > 2 and int(np.prod(c["shape"][:-2])) > 1)
def _history(c):
    r0 = gen.rng(c["seed"])
    shp = c["shape"]
    raw = r0.rand(*shp) * c["amp"]
    if c["view"]:  # a region of interest of a larger scan
        big = torch.zeros([s + 2 for s in shp], dtype=torch.float32)
        sl = tuple(slice(1, s + 1) for s in shp)
        big[sl] = T(raw, "f32")
        x = big[sl]
    else:
        x = T(raw, "f32")
    ep = ExperimentPatterns(x)
    n = int(np.prod(shp[:-2]))
    h, w = shp[-2:]
    assert ep.n_patterns == n and ep.n_pixels == h * w and tuple(ep.pattern_shape) == (h, w), "sizes"
    P = N(T(raw, "f32")).reshape(n, h, w)
    close(N(ep.patterns), P, 0.0, "stored patterns")
    spatial = ori = invf = phases = best = None
    results = {}
    handed = []  # tensors given to the store, with their values

    def give(a):
        t = T(a, "f32")
        handed.append((t, t.clone()))
        return t

    done = []
    for op, k, seed in c["ops"]:
        r = gen.rng(seed)
        idx = r.permutation(n)[:max(1, r.randint(1, n + 1))]
        ti = torch.tensor(idx)
        if op == "spatial":
            spatial = r.randn(n, 2 + k % 2)
            ep.set_spatial_coords(give(spatial))
        elif op == "spatial_idx":
            if spatial is None:
                expect_error(ep.get_spatial_coords, "reading unset spatial coordinates")
                continue
            new = r.randn(len(idx), spatial.shape[1])
            ep.set_spatial_coords(give(new), ti)
            spatial = spatial.copy()
            spatial[idx] = new
        elif op == "ori":
            ori = r.randn(n, 4)
            ep.set_orientations(give(ori))
        elif op == "ori_idx":
            if ori is None:
                continue
            new = r.randn(len(idx), 4)
            ep.set_orientations(give(new), ti)
            ori = ori.copy()
            ori[idx] = new
        elif op == "invf":
            if k % 3 == 0:
                ep.set_inv_f_matrix()
                invf = np.tile(np.eye(3), (n, 1, 1))
            else:
                m = 1 if k % 2 else n
                new = r.randn(m, 3, 3)
                ep.set_inv_f_matrix(give(new.reshape(m, 9) if k > 4 else new))
                invf = np.broadcast_to(new, (n, 3, 3))
        elif op == "background":
            ep.subtract_overall_background()
            P = P - P.mean(0, keepdims=True)
        elif op in ("minmax", "zeromean", "standard", "clean"):
            f = P.reshape(n, -1)
            if op == "clean" and n < 2:
                continue
            if op == "standard":
                if (f.std(-1) < 1e-3).any() or f.shape[1] < 2:
                    continue
                ep.normalize_per_pattern("standard")
                P = ((f - f.mean(-1, keepdims=True)) / f.std(-1, ddof=1, keepdims=True)).reshape(P.shape)
            elif op == "zeromean":
                ep.normalize_per_pattern("zeromean")
                P = (f - f.mean(-1, keepdims=True)).reshape(P.shape)
            elif op == "minmax":
                ep.normalize_per_pattern("minmax")
                lo, hi = f.min(-1, keepdims=True), f.max(-1, keepdims=True)
                P = ((f - lo) / (1e-4 + hi - lo)).reshape(P.shape)
                g = N(ep.patterns).reshape(n, -1)
                assert g.min() >= 0 and g.max() <= 1 + 1e-6, "minmax range [%r, %r]" % (g.min(), g.max())
            else:
                other = ExperimentPatterns(T(P, "f32"))
                other.subtract_overall_background()
                other.normalize_per_pattern("minmax")
                other.contrast_enhance_clahe()
                other.normalize_per_pattern("minmax")
                ep.standard_clean()
                P = N(other.patterns)
        elif op == "clahe":
            if not (P.min() >= 0 and P.max() <= 1) or min(h, w) < 8:
                continue
            ep.contrast_enhance_clahe(clip_limit=20.0, tile_grid_size=2, n_bins=16)
            P = N(torch.cat([clahe_grayscale(T(p, "f32")[None, None], 20.0, 16, (2, 2))[0] for p in P]))
        elif op == "nlpar":
            if len(shp) != 4 or n < 2 or max(P.reshape(n, -1).std(-1)) < 1e-4:
                continue
            ref = N(nlpar(T(P, "f32").reshape(*shp), 1, 0.4)).reshape(P.shape)
            if not np.isfinite(ref).all():
                continue
            ep.do_nlpar(k_rad=1, coeff=0.4)
            P = ref
        elif op == "patterns":
            b = [1, 2, 4][k % 3]
            got = N(ep.get_patterns(ti, b))
            e = P[idx].reshape(len(idx), h // b, b, w // b, b).mean(axis=(2, 4))
            close(got, e, 1e-5 * (np.abs(P).max() + 1e-6), "patterns %r at binning %d" % (idx.tolist(), b))
        elif op == "raw":
            ph, top = k % 3, 1 + r.randint(3)
            q = r.randn(n, top, 4)
            m = -np.sort(-r.randn(n, top), axis=1)  # best first for "higher is better"
            if seed % 3 == 0:  # phases that match almost equally well
                m = 0.5 + 2.0**-20 * (3 * -np.sort(-r.randint(0, 8, (n, top)), axis=1) + ph)
            results[ph] = (q, m)
            ep.set_raw_indexing_results(give(q), give(m), ph)
        elif op == "combine":
            if not results:
                expect_error(lambda: ep.combine_indexing_results(True), "combining without results")
                continue
            hib = bool(k % 2)
            ep.combine_indexing_results(higher_is_better=hib)
            keys = list(results)
            M = np.stack([results[p][1][:, 0] for p in keys])
            win = (M if hib else -M).argmax(0)
            phases = np.array(keys)[win]
            ori = np.stack([results[keys[j]][0][i, 0] for i, j in enumerate(win)])
            best = M[win, np.arange(n)]
            close(N(ep.best_metrics), best, 1e-6 * (1 + np.abs(best).max()), "best metric over phases %r" % keys)
        elif op == "phases":
            if phases is None:
                expect_error(ep.get_indices_per_phase, "indices per phase before indexing")
                continue
            got = ep.get_indices_per_phase()
            assert len(got) == phases.max() + 1, "%d phases" % len(got)
            for p, g in enumerate(got):
                assert g.dim() == 1 and g.tolist() == np.where(phases == p)[0].tolist(), "patterns of phase %d: %r" % (p, g.tolist())
        elif op == "bad":
            expect_error(lambda: ep.set_orientations(torch.zeros(n + 1, 4)), "wrong number of orientations")
            expect_error(lambda: ep.set_orientations(torch.zeros(n, 3)), "orientations with three components")
            expect_error(lambda: ep.set_spatial_coords(torch.zeros(n + 1, 2)), "wrong number of coordinates")
            expect_error(lambda: ep.set_inv_f_matrix(torch.zeros(n + 1, 3, 3)), "wrong number of matrices")
            expect_error(lambda: ep.normalize_per_pattern("nonsense"), "unknown normalisation")
            close(N(ep.patterns), P, 1e-4 * (np.abs(P).max() + 1e-6), "patterns after a rejected call")
        done.append(op)
        for t, keep in handed:
            assert torch.equal(t, keep), "a tensor handed over earlier was modified by %s" % done
        got = N(ep.patterns)
        e = 1e-3 if op in ("clahe", "clean", "nlpar") else 2e-5
        close(got, P, e * (np.abs(P).max() + np.abs(got).max() + 1e-3) * (10 if op == "standard" else 1) + 1e-7 * c["amp"], "patterns after %s" % done)
        P = got
        if ori is not None:
            close(N(ep.get_orientations()), ori, 1e-6 * 10, "orientations after %s" % done)
            close(N(ep.get_orientations(ti)), ori[idx], 1e-6 * 10, "orientations of %r after %s" % (idx.tolist(), done))
            ori = N(ep.get_orientations()).copy()
        else:
            assert ep.get_orientations() is None
        if spatial is not None:
            close(N(ep.get_spatial_coords()), spatial, 1e-5, "coordinates after %s" % done)
            close(N(ep.get_spatial_coords(ti)), spatial[idx], 1e-5, "coordinates of %r" % idx.tolist())
        if invf is not None:
            close(N(ep.get_inv_f_matrix()), invf, 1e-5, "inverse deformation gradients after %s" % done)
            close(N(ep.get_inv_f_matrix(ti)), invf[idx], 1e-5, "inverse deformation gradients of %r" % idx.tolist())
        else:
            expect_error(ep.get_inv_f_matrix, "reading unset deformation gradients")
        if phases is not None:
            assert ep.phases.tolist() == phases.tolist(), "phases %r, expected %r" % (ep.phases.tolist(), phases.tolist())
    return sorted(set(done))


@sub("errors", st.just({}), quick=1)
def _errors(c):
    expect_error(lambda: ExperimentPatterns(torch.zeros(3)), "1D patterns")
    expect_error(lambda: ExperimentPatterns(torch.zeros(2, 2, 2, 3, 3)), "5D patterns")
    return []


finish_module(globals())
