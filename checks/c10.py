"""C10 detector geometry: pattern centre <-> rigid motion, detector <-> sample projections, pixel grids."""
import math

import numpy as np
import torch

from vlib import batch, gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import DT, N, T, close
from checks.c09 import expm, twist

from ebsdtorch.ebsd import fitting as FT
from ebsdtorch.ebsd import geometry as G
from ebsdtorch.ebsd import project_hrebsd as HR

RULE = ("A case is a detector shape (1-60 x 1-60 px), 1-4 pattern centres, tilts in (-180, 180) deg incl. 0, +-70, +-90, "
        "optional se(3) corrections with masks, pixels and scan offsets; non-trivial when some tilt is non-zero.")
ASSUMPTIONS = [
    "oracle: the source point lies pcz*rows in front of detector pixel (pcy*rows-1/2, pcx*cols-1/2); the detector is "
    "turned by the secondary tilt about its row direction and by the primary tilt about the sample y axis",
    "grazing rays (angle to the detector plane below 0.05 rad) are not back-projected",
]
CPU = torch.device("cpu")


def tilt():
    return st.one_of(st.sampled_from([0.0, 70.0, -70.0, 5.0, 90.0, -90.0, 20.0, -20.0]), st.floats(-175, 175), st.floats(-30, 30))


def pc():
    return st.lists(st.one_of(st.sampled_from([0.5, 0.0, 1.0]), st.floats(-0.5, 1.5)), min_size=2, max_size=2).flatmap(
        lambda xy: st.floats(0.2, 2.0).map(lambda z: xy + [z]))


def shape():
    return st.tuples(gen.size(1, 60, 97, 240), gen.size(1, 60, 128, 200)).map(list)


def oracle(pcs, prim, sec, shp):
    """R (n,3,3), t (n,3)"""
    pcs = np.atleast_2d(np.asarray(pcs, float))
    n = len(pcs)
    R = np.zeros((n, 3, 3))
    t = np.zeros((n, 3))
    for k in range(n):
        a, b = math.radians(np.broadcast_to(prim, n)[k]), math.radians(np.broadcast_to(sec, n)[k])
        Ry = np.array([[math.cos(a), 0, math.sin(a)], [0, 1, 0], [-math.sin(a), 0, math.cos(a)]])
        Rz = np.array([[math.cos(b), -math.sin(b), 0], [math.sin(b), math.cos(b), 0], [0, 0, 1]])
        B = np.array([[0, 0, 1.0], [0, 1, 0], [-1, 0, 0]])  # rows point down (-z), columns along y, normal along x
        R[k] = Ry @ Rz @ B
        src = np.array([pcs[k, 1] * shp[0] - 0.5, pcs[k, 0] * shp[1] - 0.5, -pcs[k, 2] * shp[0]])
        t[k] = -R[k] @ src
    return R, t


FNS = {"geometry": (G.bruker_geometry_to_SE3, G.bruker_geometry_from_SE3),
       "fitting": (FT.bruker_geometries_to_SE3, FT.bruker_geometry_from_SE3)}


@sub("pattern_centre", st.fixed_dictionaries({
    "mod": st.sampled_from(sorted(FNS)), "shape": shape(), "pc": st.lists(pc(), min_size=1, max_size=4),
    "prim": tilt(), "sec": tilt(), "dt": gen.dtypes(), "each": st.booleans(), "lead": st.booleans()}), quick=600,
    nontrivial=lambda c: c["prim"] != 0 or c["sec"] != 0)
def _pc(c):
    to, frm = FNS[c["mod"]]
    n = len(c["pc"])
    prim = [c["prim"] + 7.0 * i for i in range(n)] if c["each"] else c["prim"]
    prim = [p if abs(p) < 180 else 0.0 for p in prim] if c["each"] else prim
    sec = [c["sec"] for i in range(n)] if c["each"] else c["sec"]
    p = T(c["pc"], c["dt"])
    R, t = to(p, T(prim, c["dt"]), T(sec, c["dt"]), (c["shape"][0], c["shape"][1]))
    Ro, to_ = oracle(c["pc"], prim, sec, c["shape"])
    big = 4.0 * max(c["shape"])
    eps = {"f64": 1e-11, "f32": 5e-6}[c["dt"]]
    close(np.broadcast_to(N(R), Ro.shape), Ro, eps, "rotation")
    close(np.broadcast_to(N(t), to_.shape), to_, eps * big, "translation")
    Rb, tb = R.expand(n, 3, 3), t
    R0, t0 = Rb.clone(), tb.clone()
    pcs, pr, se = frm(Rb, tb, (c["shape"][0], c["shape"][1]))
    assert torch.equal(Rb, R0) and torch.equal(tb, t0), "input modified"
    close(N(pcs), np.array(c["pc"]), eps * big, "pattern centre after a round trip")
    w = lambda d: (d + 180.0) % 360.0 - 180.0
    close(np.abs(w(N(pr) - prim)), np.zeros(n), eps * 400, "primary tilt")
    close(np.abs(w(N(se) - sec)), np.zeros(n), eps * 400, "secondary tilt")
    return [c["mod"], c["dt"]]


@st.composite
def geoms(draw):
    shp = draw(shape())
    b = [draw(st.sampled_from([d for d in range(1, s + 1) if s % d == 0])) for s in shp]
    ops = draw(st.lists(st.tuples(st.sampled_from(["rots", "shifts", "both"]),
                                  st.lists(st.booleans(), min_size=6, max_size=6)), min_size=0, max_size=4))
    return {"shape": shp, "bin": b, "tilts": [draw(tilt()), draw(tilt()), draw(tilt())], "pc": draw(pc()),
            "vec": [draw(st.floats(-0.5, 0.5)) for _ in range(3)] + [draw(st.floats(-5, 5)) for _ in range(3)],
            "novec": draw(st.integers(0, 3)) == 0,
            "mask": draw(st.lists(st.booleans(), min_size=6, max_size=6)), "ops": [list(o) for o in ops],
            "seed": draw(gen.seeds()), "npix": draw(gen.size(1, 5, 50)), "nscan": draw(gen.size(0, 4, 30)),
            "dirs": draw(st.lists(st.floats(-1, 1), min_size=4, max_size=4))}


def _close_rel(a, b, what):
    close(a, b, 2e-5 * (10.0 + float(np.abs(b).max())), what)


@sub("geometry", geoms(), quick=350, thorough=6000, nontrivial=lambda c: any(c["tilts"]) and any(c["mask"]))
def _geometry(c):
    shp = tuple(c["shape"])
    vec = np.zeros(6) if c["novec"] else np.array(c["vec"])
    m = list(c["mask"])
    g = G.EBSDGeometry(shp, tuple(c["tilts"]), tuple(c["pc"]), None if c["novec"] else T(vec, "f32"),
                       tuple(m[:3]), tuple(m[3:]))
    for kind, mm in c["ops"]:
        if kind in ("rots", "both"):
            m[:3] = mm[:3]
        if kind in ("shifts", "both"):
            m[3:] = mm[3:]
        g.set_optimizable_se3_params(**{k: v for k, v in (("opt_rots", tuple(mm[:3])), ("opt_shifts", tuple(mm[3:])))
                                        if kind == "both" or k == "opt_" + kind})
    R0, t0 = oracle(c["pc"], c["tilts"][2] - c["tilts"][1], c["tilts"][0], shp)
    M = np.eye(4)
    M[:3, :3], M[:3, 3] = R0[0], t0[0]
    M = M @ expm(twist(vec * np.array(m, float)))
    R, t = g.get_detector2sample()
    assert R.shape == (3, 3) and t.shape == (3,), "shapes %s %s" % (tuple(R.shape), tuple(t.shape))
    close(N(R), M[:3, :3], 2e-5, "rotation")
    _close_rel(N(t), M[:3, 3], "translation")
    assert R.requires_grad == any(m) and g.opt_se3 == any(m), "gradient flag"

    # every pixel (block) of the binned detector
    h, w = shp[0] // c["bin"][0], shp[1] // c["bin"][1]
    px = np.stack(np.meshgrid(np.arange(shp[0]), np.arange(shp[1]), indexing="ij"), -1).astype(float)
    blk = px.reshape(h, c["bin"][0], w, c["bin"][1], 2).mean(axis=(1, 3)).reshape(-1, 2)
    P = np.concatenate([blk, np.zeros((len(blk), 1))], -1) @ M[:3, :3].T + M[:3, 3]
    got = N(g.get_coords_sample_frame((c["bin"][0], c["bin"][1])))
    assert got.reshape(-1, 3).shape == P.shape, "%s coordinates for %d pixels" % (got.shape, len(P))
    _close_rel(got.reshape(-1, 3), P, "pixel block centres in the sample frame")

    # project and back-project
    r = gen.rng(c["seed"])
    pix = r.uniform(-10, 70, (c["npix"], 1, 2))
    scan = r.uniform(-20, 20, (1, c["nscan"], 2)) if c["nscan"] else None
    p32 = T(pix, "f32")
    s32 = None if scan is None else T(scan, "f32")
    S = g.project2sample(p32, s32)
    exp_ = np.concatenate([pix, np.zeros_like(pix[..., :1])], -1) @ M[:3, :3].T + M[:3, 3]
    if scan is not None:
        exp_ = exp_ - np.concatenate([scan, np.zeros_like(scan[..., :1])], -1)
    _close_rel(N(S), exp_, "detector pixels in the sample frame")
    n = M[:3, 2]
    org = np.zeros(3) if scan is None else np.concatenate([scan, np.zeros_like(scan[..., :1])], -1)
    dist = ((org - M[:3, 3]) @ n)
    sinang = np.abs(exp_ @ n) / np.linalg.norm(exp_, axis=-1)
    ok = (sinang > 0.05) & (np.abs(dist) > 1.0) & (np.linalg.norm(exp_, axis=-1) > 1.0)
    back = N(g.backproject2detector(S, s32))
    want = np.broadcast_to(pix, back.shape)
    sc = 1e-4 * (np.linalg.norm(M[:3, 3]) + 100) / np.maximum(sinang, 0.05) ** 2
    bad = ok & ~(np.abs(back - want).max(-1) <= sc)
    assert not bad.any(), "back-projection of projected pixels %r -> %r" % (want[bad].tolist(), back[bad].tolist())
    # a ray is defined up to its length
    back2 = N(g.backproject2detector(S * 3.5, s32))
    bad = ok & ~(np.abs(back2 - want).max(-1) <= 3 * sc)
    assert not bad.any(), "back-projection depends on the length of the ray: %r -> %r" % (want[bad].tolist(), back2[bad].tolist())
    return ["scan" if c["nscan"] else "noscan", "bin%d" % min(2, c["bin"][0] * c["bin"][1])]


@st.composite
def grids(draw):
    b = draw(st.integers(1, 4))
    return {"bin": b, "shape": [b * draw(st.integers(1, 12)), b * draw(st.integers(1, 12))],
            "lo": [draw(st.floats(-0.5, 0.5)), draw(st.floats(-0.5, 0.5))],
            "hi": [draw(st.floats(0.5, 1.5)), draw(st.floats(0.5, 1.5))], "pc": draw(pc()), "prim": draw(tilt()),
            "sec": draw(tilt()), "q": draw(gen.quats(1, 3)), "dt": draw(gen.dtypes())}


@sub("fit_grid", grids(), quick=400, nontrivial=lambda c: c["bin"] > 1 or c["prim"] != 0)
def _fit_grid(c):
    b, (H, W) = c["bin"], c["shape"]
    dt = DT[c["dt"]]
    got = N(FT.get_3D_pixel_coords((H, W), CPU, b, dt))
    px = np.stack(np.meshgrid(np.arange(H), np.arange(W), indexing="ij"), -1).astype(float)
    blk = px.reshape(H // b, b, W // b, b, 2).mean(axis=(1, 3))
    eps = {"f64": 1e-9, "f32": 2e-4}[c["dt"]]
    flat = np.concatenate([blk.reshape(-1, 2), np.zeros((blk.shape[0] * blk.shape[1], 1))], -1)
    close(got, flat, eps, "pixel block centres")
    co, pad, ps = FT.get_3D_pixel_coords_with_periphery((H, W), CPU, c["lo"][0], c["hi"][0], c["lo"][1], c["hi"][1], b, dt)
    w0, w1, h0, h1 = pad
    assert min(pad) >= 0 and tuple(ps) == (H // b + h0 + h1, W // b + w0 + w1), "padded shape %s for padding %s" % (ps, pad)
    for got_p, want_p in ((w0, (c["hi"][0] - 0.5) * W / b), (w1, (0.5 - c["lo"][0]) * W / b),
                          (h0, (c["hi"][1] - 0.5) * H / b), (h1, (0.5 - c["lo"][1]) * H / b)):
        assert abs(got_p - want_p) < 1.0 + 1e-6, "padding %r for %r blocks" % (got_p, want_p)
    g = N(co).reshape(ps[0], ps[1], 3)
    close(g[h0:h0 + H // b, w0:w0 + W // b, :2], blk, eps, "inner part of the padded grid")
    i = np.arange(ps[0]) - h0
    j = np.arange(ps[1]) - w0
    close(g[..., 0], np.broadcast_to((i * b + 0.5 * (b - 1))[:, None], g.shape[:2]), eps, "padded rows")
    close(g[..., 1], np.broadcast_to((j * b + 0.5 * (b - 1))[None], g.shape[:2]), eps, "padded columns")
    assert not g[..., 2].any()

    R, t = oracle(c["pc"], c["prim"], c["sec"], (H, W))
    v = flat @ R[0].T + t[0]
    nv = np.linalg.norm(v, axis=-1, keepdims=True)
    if nv.min() > 0.05:
        v = v / nv
        e2 = eps * 10 / float(nv.min()) + {"f64": 1e-9, "f32": 1e-5}[c["dt"]]
        a = N(FT.apply_geometry(T(flat, c["dt"]), T(R, c["dt"])[0], T(t, c["dt"])[0]))
        close(a, v, e2, "viewing directions")
        d = N(FT.generate_dictionary_coords(T(flat, c["dt"]), T(c["q"], c["dt"]), T(R, c["dt"])[0], T(t, c["dt"])[0]))
        want = np.stack([rot.qrot(np.array(q), v) for q in c["q"]])
        close(d, want, e2 * 2, "rotated viewing directions")
    return ["bin%d" % b, c["dt"]]


@st.composite
def hr(draw):
    b = draw(st.integers(1, 3))
    n = draw(st.integers(1, 3))
    return {"bin": b, "shape": [b * draw(st.integers(1, 8)), b * draw(st.integers(1, 8))],
            "mask": draw(st.lists(st.booleans(), min_size=6, max_size=6)),
            "vec": [[draw(st.floats(-1.5, 1.5)) for _ in range(3)] + [draw(st.floats(-30, 30)) for _ in range(2)]
                    + [draw(st.floats(5, 60))] for _ in range(n)],
            "q": draw(gen.quats(n, n)), "seed": draw(gen.seeds()), "dt": draw(gen.dtypes())}


@sub("hrebsd", hr(), quick=300, nontrivial=lambda c: any(c["mask"]))
def _hr(c):
    b, (H, W) = c["bin"], c["shape"]
    n = len(c["vec"])
    F = np.eye(3) + 0.15 * gen.rng(c["seed"]).uniform(-1, 1, (n, 3, 3))
    m = np.array(c["mask"], float)
    dt = DT[c["dt"]]
    px = np.stack(np.meshgrid(np.arange(H), np.arange(W), indexing="ij"), -1).astype(float)
    blk = px.reshape(H // b, b, W // b, b, 2).mean(axis=(1, 3)).reshape(-1, 2)
    flat = np.concatenate([blk, np.zeros((len(blk), 1))], -1)
    got = N(HR.hrebsd_coords(T(m, c["dt"]), T(c["vec"], c["dt"]), T(c["q"], c["dt"]), T(F, c["dt"]), (H, W), b, CPU, dt))
    assert got.shape == (n, len(flat), 3), "shape %s" % (got.shape,)
    for k in range(n):
        M = expm(twist(np.array(c["vec"][k]) * m))
        v = flat @ M[:3, :3].T + M[:3, 3]
        nv = np.linalg.norm(v, axis=-1, keepdims=True)
        ok = nv[:, 0] > 0.3
        v = rot.qrot(np.array(c["q"][k]), v / np.maximum(nv, 1e-9)) @ F[k].T
        v = v / np.linalg.norm(v, axis=-1, keepdims=True)
        close(got[k][ok], v[ok], {"f64": 1e-8, "f32": 2e-3}[c["dt"]], "viewing directions of pattern %d" % k)
    if b > 1:
        for bad in ((H + 1, W), (H, W + 1)):
            try:
                HR.hrebsd_coords(T(m, c["dt"]), T(c["vec"], c["dt"]), T(c["q"], c["dt"]), T(F, c["dt"]), bad, b, CPU, dt)
            except Exception:
                continue
            raise AssertionError("binning %d accepted for detector %s" % (b, bad))
    return ["bin%d" % b, c["dt"]]


# the batch law for the projections and conversions of one geometry
_GEO = {dt: [G.EBSDGeometry((60, 40), tilts_degrees=(3.0, 70.0, 5.0), proj_center=(0.45, 0.55, 0.6),
                            se3_vector=torch.tensor([0.02, -0.01, 0.03, 1.0, -2.0, 0.5]), opt_rots=(True, o, True), opt_shifts=(True, True, o)).to(DT[dt]) for o in (False, True)] for dt in ("f32", "f64")}
_geo = lambda x, k: _GEO["f64" if x.dtype == torch.float64 else "f32"][k]
_px = lambda r, n: [r.uniform(-5, 65, (n, 2))]
_ray = lambda r, n: [np.stack([-r.uniform(50, 90, n), r.uniform(-20, 20, n), r.uniform(-20, 20, n)], -1)]


def _tilts(r, n):
    return [r.uniform(0.2, 0.9, (n, 3)), r.uniform(-90, 90, n), r.uniform(-30, 30, n)]


def _to_from(pc_, a, b):
    R, t = G.bruker_geometry_to_SE3(pc_, a, b, (60, 40))
    return R, t, G.bruker_geometry_from_SE3(R, t, (60, 40))[0]


batch.add({
    "project2sample": {"fn": lambda x, k: _geo(x, k).project2sample(x), "make": _px, "opts": [0, 1]},
    "project2sample at scan points": {"fn": lambda x, s, k: _geo(x, k).project2sample(x, s), "make": lambda r, n: _px(r, n) + [r.uniform(-9, 9, (n, 2))], "opts": [0, 1]},
    "backproject2detector": {"fn": lambda x, k: _geo(x, k).backproject2detector(x), "make": _ray, "opts": [0, 1]},
    "backproject2detector at scan points": {"fn": lambda x, s, k: _geo(x, k).backproject2detector(x, s), "make": lambda r, n: _ray(r, n) + [r.uniform(-9, 9, (n, 2))], "opts": [0, 1]},
    "bruker_geometry": {"fn": _to_from, "make": _tilts, "nd": 1},
}, quick=200)


finish_module(globals())
