"""C34 derivatives: what is fitted by backpropagation has the derivatives of the functions themselves."""
import math

import numpy as np
import torch

from vlib import gen, rot
from vlib.harness import finish_module, st, sub
from vlib.tu import T, close
from checks.c09 import _THRESH

from ebsdtorch.ebsd.geometry import EBSDGeometry, bruker_geometry_from_SE3, bruker_geometry_to_SE3
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.project_hrebsd import hrebsd_coords, project_hrebsd
from ebsdtorch.lie_algebra import se3 as L
from ebsdtorch.s2_and_so3 import quaternions as Q
from ebsdtorch.s2_and_so3 import sphere as SP

RULE = ("A case is a function of the chain from geometry and orientation to pattern, a point (the identity, tiny, near a series threshold, generic) and two "
        "directions; non-trivial when the point is not the identity.")
ASSUMPTIONS = ["derivatives along random directions by central differences in double precision, at two step sizes; where those disagree (a kink such as a pixel "
               "border) only finiteness is judged",
               "quaternion exponentials are not judged at rotations below 1e-5 rad, where the package warns of cancellation"]
CPU = torch.device("cpu")


def grads(f, xs, seed, what, rtol=2e-5, judge=True):
    """f maps float64 tensors to one tensor; compares <grad, u> with differences"""
    r = gen.rng(seed)
    xs = [x.detach().double() for x in xs]
    with torch.no_grad():
        y0 = f(*xs)
    w = torch.tensor(r.randn(*y0.shape))
    leaf = [x.clone().requires_grad_(True) for x in xs]
    g = torch.autograd.grad((f(*leaf) * w).sum(), leaf, allow_unused=True)
    n = 0
    for k, x in enumerate(xs):
        gk = torch.zeros_like(x) if g[k] is None else g[k]
        assert torch.isfinite(gk).all(), "%s: derivative by argument %d is not finite at %r" % (what, k, x.flatten()[:8].tolist())
        for _ in range(2):
            u = torch.tensor(r.randn(*x.shape))
            u = u / u.norm()

            def at(h):
                with torch.no_grad():
                    return float((f(*[z + h * u if i == k else z for i, z in enumerate(xs)]) * w).sum())

            H, a0 = (2e-5, 1e-5, 5e-6), at(0)
            up, dn = [at(h) for h in H], [at(-h) for h in H]
            d = [(a - b) / (2 * h) for h, a, b in zip(H, up, dn)]
            bend = [(a - 2 * a0 + b) / h for h, a, b in zip(H, up, dn)]  # in proportion to h where the function is smooth, constant across a kink
            scale = float(gk.norm()) + abs(d[0]) + float(w.norm()) * 1e-2
            if max(d) - min(d) > 0.5 * rtol * scale or max(abs(bend[0] / 2 - bend[1]), abs(bend[1] / 2 - bend[2])) > 0.5 * rtol * scale:
                continue
            n += 1
            got = float((gk * u).sum())
            assert not judge or abs(got - d[1]) <= rtol * scale, "%s: derivative by argument %d is %.8g, differences give %.8g (scale %.3g)" % (what, k, got, d[1], scale)
    return n


@st.composite
def twists(draw):
    kind = draw(st.sampled_from(["zero", "tiny", "thresh", "generic", "axis", "generic"]))
    ax = np.array(gen.unit_axis(draw))
    a = {"zero": 0.0, "tiny": 10.0 ** draw(st.floats(-7, -3)), "thresh": draw(st.sampled_from(_THRESH)) * draw(st.sampled_from([0.9, 0.99, 1.01, 1.1])),
         "axis": draw(st.sampled_from([1.0, math.pi / 2])), "generic": draw(st.floats(0.06, 2.8))}[kind]
    t = gen.rng(draw(gen.seeds())).uniform(-3, 3, 3)
    return {"kind": kind, "v": (a * ax).tolist() + t.tolist()}


@sub("exponential", st.fixed_dictionaries({"t": st.lists(twists(), min_size=1, max_size=3), "seed": gen.seeds(), "fn": st.sampled_from(["om", "split", "round", "wexp", "vmat", "vinv", "quat"])}),
     quick=300, thorough=10000, nontrivial=lambda c: any(t["kind"] != "zero" for t in c["t"]))
def _exp(c):
    v = torch.tensor([t["v"] for t in c["t"]], dtype=torch.float64)
    cat = lambda R, t: torch.cat([R.flatten(-2), t], -1)
    fn = {"om": L.se3_exp_map_om, "split": lambda x: cat(*L.se3_exp_map_split(x)), "round": lambda x: L.se3_log_map_om(L.se3_exp_map_om(x)),
          "wexp": lambda x: L.w_exp(x[..., :3]), "vmat": lambda x: L.w_to_v(x[..., :3]), "vinv": lambda x: L.w_to_v_inv(x[..., :3]),
          "quat": lambda x: torch.cat(L.se3_exp_map_quat(x), -1)}[c["fn"]]
    if c["fn"] == "quat" and min(np.linalg.norm(t["v"][:3]) for t in c["t"]) < 1e-3:
        return ["skipped"]
    # differences across a series threshold see the step between the two forms, which is of the order of the first dropped term
    n = grads(fn, [v], c["seed"], c["fn"], 3e-5 if c["fn"] != "quat" else 1e-4)
    if c["fn"] == "round":
        J = torch.autograd.functional.jacobian(lambda x: fn(x).sum(0), v)
        e = np.broadcast_to(np.eye(6)[:, None], (6, len(v), 6))
        close(J.numpy(), e, 2e-5, "logarithm of the exponential: Jacobian")
    return [c["fn"], "judged" if n else "kink"] + [t["kind"] for t in c["t"]]


@st.composite
def geos(draw):
    b = draw(st.sampled_from([1, 1, 2]))
    return {"shape": [b * draw(st.integers(1, 4)), b * draw(st.integers(1, 4))], "b": b, "tilts": [draw(st.floats(-10, 10)), draw(st.floats(-10, 10)), draw(st.floats(50, 80))],
            "pc": [draw(st.floats(0.2, 0.8)) for _ in range(2)] + [draw(st.floats(0.4, 1.0))], "v": draw(twists()), "mask": draw(st.lists(st.booleans(), min_size=6, max_size=6)), "seed": draw(gen.seeds())}


@sub("geometry", geos(), quick=120, thorough=4000, nontrivial=lambda c: any(c["mask"]) and c["v"]["kind"] != "zero")
def _geo(c):
    m = c["mask"]
    v = T(0.3 * np.array(c["v"]["v"]), "f64")[None]
    late = c["seed"] % 2  # the free parameters chosen at once, or afterwards

    def geometry(x):
        h = EBSDGeometry(tuple(c["shape"]), tuple(c["tilts"]), tuple(c["pc"]), x, *(() if late else (tuple(m[:3]), tuple(m[3:])))).double()
        if late:
            h.set_optimizable_se3_params(tuple(m[:3]), tuple(m[3:]))
        return h
    g = geometry(v.clone())

    def call(fn):
        def f(x):
            h = geometry(None)
            del h._parameters["se3_vector"]
            h.se3_vector = x
            return fn(h)
        return f
    coords = lambda h: h.get_coords_sample_frame((c["b"], c["b"]), dtype=torch.float64).reshape(-1, 3)
    if any(m):
        n = grads(call(coords), [v], c["seed"], "pixel coordinates by the geometry")
        y = coords(g)
        w = torch.tensor(gen.rng(c["seed"]).randn(*y.shape))
        (y * w).sum().backward()
        gr = g.se3_vector.grad
        assert gr is not None and torch.isfinite(gr).all(), "no finite gradient reaches the parameters"
        assert not gr[0, ~torch.tensor(m)].any(), "a fixed parameter has a gradient"
        dirs = coords(g).detach()
        n += grads(call(lambda h: h.backproject2detector(dirs)), [v], c["seed"] + 1, "detector coordinates by the geometry", 1e-4)
    else:
        assert not coords(g).requires_grad, "gradient without free parameters"
        n = 0
    n += grads(lambda p: g.project2sample(p), [T(gen.rng(c["seed"]).rand(3, 2) * 5, "f64")], c["seed"] + 2, "sample coordinates by the pixel")

    def pcs(p, t1, t2):
        R, t = bruker_geometry_to_SE3(p, t1, t2, (c["shape"][0], c["shape"][1]))
        return torch.cat([R.flatten(-2), t], -1)
    a = [T([c["pc"]], "f64"), T([c["tilts"][2]], "f64"), T([c["tilts"][0]], "f64")]
    n += grads(pcs, a, c["seed"] + 3, "rigid motion by the projection centre and tilts")
    return ["free%d" % sum(m), c["v"]["kind"]]


@sub("lookup", st.fixed_dictionaries({"seed": gen.seeds(), "H": st.integers(2, 12), "W": st.integers(2, 12), "n": st.integers(1, 6), "mode": st.sampled_from(["bilinear", "bicubic"]), "al": st.booleans(),
                                      "norm": st.booleans(), "vb": st.sampled_from([1, 1, 2]), "kind": st.sampled_from(["any", "any", "equator", "diagonal", "pole", "axis"])}),
     quick=250, thorough=8000)
def _look(c):
    r = gen.rng(c["seed"])
    mp = MasterPattern(torch.tensor(r.rand(c["vb"] * c["H"], 2 * c["vb"] * c["W"])), laue_group=11)
    v = r.randn(c["n"], 3)
    if c["kind"] == "equator":
        v[:, 2] *= 1e-3
    elif c["kind"] == "diagonal":
        v[:, 1] = v[:, 0] * r.choice([1, -1], c["n"]) * (1 + 1e-3 * r.randn(c["n"]))
    elif c["kind"] == "pole":
        v[:, :2] *= 1e-2
    elif c["kind"] == "axis":
        v[:, 0] = 1e-3 * v[:, 0]
    v /= np.linalg.norm(v, axis=-1, keepdims=True)
    x = torch.tensor(v)
    f = lambda x: mp.interpolate(x, mode=c["mode"], align_corners=c["al"], normalize_coords=c["norm"], virtual_binning=c["vb"])
    keep = x.clone()
    n = grads(f, [x], c["seed"], "value of the master pattern by the direction", 1e-4)
    assert torch.equal(x, keep)
    n += grads(SP.rosca_lambert, [x], c["seed"] + 1, "projection", 1e-4)
    n += grads(SP.rosca_lambert_side_by_side, [x], c["seed"] + 1, "projection side by side", 1e-4)
    n += grads(SP.inv_rosca_lambert, [torch.tensor(r.uniform(-0.95, 0.95, (c["n"], 2)))], c["seed"] + 2, "inverse projection", 1e-4)
    return [c["mode"], c["kind"], "judged" if n else "kink"]


@sub("quaternions", st.fixed_dictionaries({"seed": gen.seeds(), "n": st.integers(1, 4), "p": gen.quaternion(), "q": gen.quaternion()}), quick=150, thorough=4000)
def _qu(c):
    r = gen.rng(c["seed"])
    p, q = T([c["p"]] * c["n"], "f64"), T([c["q"]], "f64")
    v = torch.tensor(r.randn(c["n"], 3))
    grads(Q.qu_apply, [p, v], c["seed"], "rotated vector")
    grads(Q.qu_prod_raw if hasattr(Q, "qu_prod_raw") else Q.qu_prod, [p, q], c["seed"], "product")
    return []


@sub("patterns", st.fixed_dictionaries({"t": st.lists(twists(), min_size=1, max_size=2), "b": st.sampled_from([1, 2]), "seed": gen.seeds(), "mask": st.lists(st.booleans(), min_size=6, max_size=6),
                                        "mode": st.sampled_from(["bilinear", "bicubic"])}), quick=120, thorough=4000, nontrivial=lambda c: any(c["mask"]))
def _pats(c):
    """the whole chain: detector motion, orientation and deformation to the pattern"""
    r = gen.rng(c["seed"])
    n = len(c["t"])
    v = torch.tensor(np.array([t["v"] for t in c["t"]]) * [0.2] * n).reshape(n, 6)
    v[:, 5] = v[:, 5].abs() + 3
    m = T(np.array(c["mask"], float), "f64")
    m[5] = 1.0
    q = T(np.stack([(lambda z: z / np.linalg.norm(z))(r.randn(4)) for _ in range(n)]), "f64")
    F = torch.tensor(np.eye(3) + 0.1 * r.randn(n, 3, 3))
    mp = MasterPattern(torch.tensor(r.rand(4, 8)), laue_group=1)
    b = c["b"]
    co = lambda v, q, F: hrebsd_coords(m, v, q, F, (2 * b, b), b, CPU, torch.float64)
    k = grads(co, [v, q, F], c["seed"], "viewing directions", 1e-4)
    k += grads(lambda v, q, F: project_hrebsd(mp, co(v, q, F), c["mode"]), [v, q, F], c["seed"] + 1, "pattern", 2e-4)
    return [c["mode"], "judged" if k else "kink"]


finish_module(globals())
