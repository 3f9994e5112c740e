"""C27 unit cell: geometry, symmetry classification, site orbits and derived averages."""
import math

import numpy as np
import torch

from vlib import batch, gen, hall, xtal
from vlib.harness import finish_module, st, sub
from vlib.tu import N, T, close, rel_close

from checks import c12
from ebsdtorch.crystallography.unit_cell import Cell, atomic_weights

RULE = ("A case is a lattice (any triclinic one, or one its space group allows) with vectors, sites or conversions; non-trivial when the lattice "
        "is oblique, or the space group is not P1.")
ASSUMPTIONS = ["Cartesian frame with a along x and b in the xy plane", "site orbits computed exactly, in rational arithmetic, with the operators of the Hall symbols",
               "sites whose equivalents nearly coincide (closer than 0.002) are not generated, since the code merges positions closer than 1e-4",
               "density in g/cm^3 with Avogadro's number 6.02214076e23; atomic weights as tabulated by the package (checked for order and rough size)"]
UNIT = {"nm": 1.0, "angstrom": 10.0, "pm": 1000.0}
NA_ = 602.214076


def tri(r, mild=False):
    while True:
        ang = r.uniform(40, 140, 3) if not mild else r.uniform(60, 120, 3)
        abc = 10 ** r.uniform(-0.7, 0.4, 3)
        if xtal.gram(abc, ang)[1] > 0.12:
            return tuple(abc.tolist()), tuple(ang.tolist())


def make(abc, ang, sg=1, setting=1, atoms=((6, 0.1, 0.2, 0.3, 1.0, 0.005),), units="nm", aunits="deg"):
    return Cell(sg, [tuple(a) for a in atoms], tuple(x * UNIT[units] for x in abc), units,
                tuple(ang) if aunits == "deg" else tuple(math.radians(x) for x in ang), aunits, sg_setting=setting)


LAT = {"seed": gen.seeds(), "units": st.sampled_from(["nm", "angstrom", "pm"]), "aunits": st.sampled_from(["deg", "rad"]),
       "shape": st.sampled_from(["tri", "tri", "mono", "hex", "ortho", "cube"])}


def lat(c, r):
    if c["shape"] == "tri":
        return tri(r)
    return xtal.lattice({"mono": 3, "hex": 168, "ortho": 16, "cube": 195}[c["shape"]], r)


oblique = lambda c: c["shape"] in ("tri", "mono", "hex")


@sub("metric", st.fixed_dictionaries(dict(LAT, f32=st.booleans())), quick=300, thorough=8000, nontrivial=oblique)
def _metric(c):
    r = gen.rng(c["seed"])
    abc, ang = lat(c, r)
    cell = make(abc, ang, units=c["units"], aunits=c["aunits"])
    B = xtal.basis(abc, ang)
    G = B.T @ B
    tol = 1e-11
    if c["f32"]:
        cell = cell.set_fp_dtype(torch.float32)
        tol = 1e-6
    k = np.linalg.cond(G)
    rel_close(N(cell.dmt), G, tol, "direct metric tensor")
    rel_close(N(cell.rmt), np.linalg.inv(G), tol * k, "reciprocal metric tensor")
    rel_close(N(cell.dsm), B, tol * k, "direct structure matrix")
    rel_close(N(cell.rsm), np.linalg.inv(B).T, tol * k, "reciprocal structure matrix")
    rel_close(N(cell.vol), np.linalg.det(B), tol * k, "volume")
    rel_close(np.array([cell.a, cell.b, cell.c]), np.array(abc), tol, "lattice parameters in nm")
    rel_close(np.array([cell.alpha, cell.beta, cell.gamma]), np.deg2rad(ang), tol, "angles in radians")
    for p, q in [(cell.get_volume, cell.vol), (cell.get_direct_metric_tensor, cell.dmt), (cell.get_reciprocal_metric_tensor, cell.rmt),
                 (cell.get_direct_structure_matrix, cell.dsm), (cell.get_reciprocal_structure_matrix, cell.rsm), (cell.get_density, cell.density),
                 (cell.get_average_atomic_number, cell.average_atomic_number), (cell.get_average_atomic_weight, cell.average_atomic_weight)]:
        assert torch.equal(p, q)
    return [c["shape"], c["units"], c["aunits"]]


@sub("vectors", st.fixed_dictionaries(dict(LAT, shape2=st.sampled_from([[3], [1, 3], [5, 3], [2, 3, 3], [3, 3]]), ints=st.booleans())), quick=400, thorough=12000, nontrivial=oblique)
def _vec(c):
    """the three frames describe the same vectors: lengths, angles, products and conversions agree with Cartesian arithmetic"""
    r = gen.rng(c["seed"])
    abc, ang = lat(c, r)
    cell = make(abc, ang, units=c["units"], aunits=c["aunits"])
    B = xtal.basis(abc, ang)
    to_c = {"d": B, "r": np.linalg.inv(B).T, "c": np.eye(3)}
    shape = c["shape2"]
    p, q = r.randn(*shape), r.randn(*shape)
    if c["ints"]:
        p, q = np.rint(4 * p), np.rint(4 * q)
        p[..., 0] += (np.abs(p).sum(-1) == 0)
        q[..., 1] += (np.abs(q).sum(-1) == 0)
    k = np.linalg.cond(B) ** 2 * 1e-11
    for s in "drc":
        P, Q = p @ to_c[s].T, q @ to_c[s].T
        sc = np.abs(P).max() * np.abs(Q).max()
        pt, qt = T(p), T(q)
        keep = pt.clone()
        for o in "drc":
            got = cell.transform_space(pt, s, o)
            want = P @ np.linalg.inv(to_c[o]).T
            rel_close(N(got), want, k, "transform_space %s->%s" % (s, o))
            rel_close(N(cell.transform_space(got, o, s)), p, 10 * k, "transform_space %s->%s->%s" % (s, o, s))
            w = np.cross(P, Q) @ np.linalg.inv(to_c[o]).T
            vol = np.linalg.det(B)
            rel_close(N(cell.calc_cross(pt, qt, s, o, True)), w, k, "calc_cross %s->%s" % (s, o), atol=k * sc)
            f = {"d": 1 / vol, "r": vol, "c": 1.0}[s]
            rel_close(N(cell.calc_cross(pt, qt, s, o, False)), w * f, k, "unscaled calc_cross %s->%s" % (s, o), atol=k * sc * f)
        dot = (P * Q).sum(-1)
        close(N(cell.calc_dot(pt, qt, s)), dot, k * sc, "calc_dot " + s)
        rel_close(N(cell.calc_auto_dot(pt, s)), (P * P).sum(-1), k, "calc_auto_dot " + s)
        ln = np.linalg.norm(P, axis=-1)
        rel_close(N(cell.calc_length(pt, s)), ln, k, "calc_length " + s)
        if c["ints"]:
            rel_close(N(cell.calc_length(pt.long(), s)), ln, k, "calc_length of integers " + s)
        close(N(cell.norm_vec(pt, s)), p / ln[..., None], k * max(1, np.abs(p / ln[..., None]).max()), "norm_vec " + s)
        ca = np.clip(dot / ln / np.linalg.norm(Q, axis=-1), -1, 1)
        a = N(cell.calc_angle(pt, qt, s))
        close(np.cos(a), ca, 1e-9 + k, "cosine of calc_angle " + s)
        assert ((a >= 0) & (a <= math.pi + 1e-12)).all()
        close(N(cell.calc_angle(pt, pt, s)), np.zeros(a.shape), 1e-6 + math.sqrt(k), "angle with itself " + s)
        close(N(cell.calc_angle(pt, -2 * pt, s)), np.full(a.shape, math.pi), 1e-6 + math.sqrt(k), "angle with the opposite " + s)
        d = 10 ** r.uniform(-6, -1)  # nearly parallel vectors
        near = P + d * ln[..., None] * Q / np.linalg.norm(Q, axis=-1, keepdims=True)
        for sg in (1, -1):
            x = np.linalg.norm(np.cross(P, near), axis=-1) / (P * near).sum(-1)
            want = np.arctan(x) if sg == 1 else math.pi - np.arctan(x)
            got = N(cell.calc_angle(pt, T(sg * near @ np.linalg.inv(to_c[s]).T), s))
            slack = np.minimum(np.sqrt(8 * k + 1e-15), (4 * k + 1e-15) / np.maximum(np.arctan(x), 1e-300))
            assert (np.abs(got - want) <= 2 * slack + 1e-12).all(), "angle between nearly parallel vectors (%s): %r, expected %r" % (s, got.tolist(), want.tolist())
        assert torch.equal(pt, keep), "input modified"
    z = torch.zeros(3, dtype=torch.float64)
    assert torch.equal(cell.norm_vec(z, "d"), z), "norm_vec of zero"
    return [c["shape"], "int" if c["ints"] else "real"]


@sub("single", st.fixed_dictionaries(dict(LAT, rows=st.integers(1, 4))), quick=120, thorough=3000, nontrivial=oblique)
def _single(c):
    """a cell set to single precision describes the same vectors"""
    r = gen.rng(c["seed"])
    abc, ang = lat(c, r)
    B = xtal.basis(abc, ang)
    k = np.linalg.cond(B) ** 2 * 2e-6
    if k > 1e-2:
        return ["skipped"]
    cell = make(abc, ang, units=c["units"], aunits=c["aunits"])
    assert cell.set_fp_dtype(torch.float32) is cell
    to_c = {"d": B, "r": np.linalg.inv(B).T, "c": np.eye(3)}
    p, q = r.randn(c["rows"], 3), r.randn(c["rows"], 3)
    f = lambda x: T(x, "f32")
    p, q = N(f(p)).astype(float), N(f(q)).astype(float)
    for s in "drc":
        P, Q = p @ to_c[s].T, q @ to_c[s].T
        lp, lq = np.linalg.norm(P, axis=-1), np.linalg.norm(Q, axis=-1)
        for o in "drc":
            inv = np.linalg.inv(to_c[o]).T
            got = cell.transform_space(f(p), s, o)
            assert got.dtype == torch.float32
            w = P @ inv
            close(N(got), w, k * np.abs(w).max(), "transform_space %s->%s in single precision" % (s, o))
            w = np.cross(P, Q) @ inv
            close(N(cell.calc_cross(f(p), f(q), s, o, True)), w, k * np.linalg.norm(inv, 2) * (lp * lq).max(), "calc_cross %s->%s in single precision" % (s, o))
        close(N(cell.calc_dot(f(p), f(q), s)), (P * Q).sum(-1), k * (lp * lq).max(), "calc_dot in single precision")
        close(N(cell.calc_length(f(p), s)), lp, k * lp.max(), "calc_length in single precision")
        close(np.cos(N(cell.calc_angle(f(p), f(q), s))), (P * Q).sum(-1) / lp / lq, 2 * k, "cosine of calc_angle in single precision")
    return [c["shape"]]


@sub("change_of_basis", st.fixed_dictionaries({"seed": gen.seeds(), "kind": st.sampled_from(["integer", "real", "rotation", "hex"]), "n": st.integers(1, 4)}), quick=150, thorough=4000,
     nontrivial=lambda c: c["kind"] != "rotation")
def _cob(c):
    """with a' = alpha a, direct and reciprocal components transform so that vectors stay where they are"""
    r = gen.rng(c["seed"])
    abc, ang = tri(r)
    cell = make(abc, ang)
    B = xtal.basis(abc, ang)
    while True:
        A = {"integer": lambda: r.randint(-3, 4, (3, 3)).astype(float), "real": lambda: r.randn(3, 3),
             "rotation": lambda: np.linalg.qr(r.randn(3, 3))[0], "hex": lambda: np.array([[1, -1, 0], [0, 1, -1], [1, 1, 1.0]])}[c["kind"]]()
        if abs(np.linalg.det(A)) > 0.2:
            break
    B2 = B @ A.T  # new lattice vectors in the columns
    p, At = r.randn(c["n"], 3), T(A)
    k = 1e-11 * np.linalg.cond(A) * np.linalg.cond(B) ** 2
    new = np.linalg.solve(B2, B @ p.T).T
    rel_close(N(cell.transform_coordinates(T(p), At, "d", "on")), new, k, "direct, old to new")
    rel_close(N(cell.transform_coordinates(T(new), At, "d", "no")), p, k, "direct, new to old")
    R, R2 = np.linalg.inv(B).T, np.linalg.inv(B2).T
    newr = np.linalg.solve(R2, R @ p.T).T
    rel_close(N(cell.transform_coordinates(T(p), At, "r", "on")), newr, k, "reciprocal, old to new")
    rel_close(N(cell.transform_coordinates(T(newr), At, "r", "no")), p, k, "reciprocal, new to old")
    close(N(cell.transform_coordinates(T(p[0]), At, "d", "on")), new[0], k * np.abs(new).max(), "single vector")
    return [c["kind"]]


SG = st.integers(1, 230)
KIND = st.sampled_from(["generic", "special", "special", "line", "plane"])


@sub("orbits", st.fixed_dictionaries({"sg": SG, "second": st.booleans(), "seed": gen.seeds(), "sites": st.lists(KIND, min_size=1, max_size=3),
                                      "digits": st.sampled_from([None, None, 6, 5]), "shift": st.integers(-1, 1)}),
     quick=500, thorough=12000, nontrivial=lambda c: c["sg"] > 1)
def _orb(c):
    """classification, the orbit of every site, multiplicities, density and averages"""
    sg, r = c["sg"], gen.rng(c["seed"])
    setting = 2 if c["second"] and " / " in hall.HALL[sg] else 1
    abc, ang = xtal.lattice(sg, r)
    atoms, orbs = [], []
    for kind in c["sites"]:
        while True:
            x = xtal.site(r, kind)
            o = xtal.orbit(sg, setting, x)
            if not xtal.crowded(o):
                break
        xf = [float(v) + c["shift"] for v in x]
        if c["digits"]:
            xf = [round(v, c["digits"]) for v in xf]
        atoms.append((int(r.randint(1, 99)), *xf, float(r.choice([1.0, 1.0, 0.5, 0.25])), 0.005))
        orbs.append(o)
    cell = make(abc, ang, sg, setting, atoms)
    pgname = c12.pg_of_space_group(sg)
    assert cell.pg_num == [p for _, p in c12.LAST].index(pgname) + 1, "space group %d: point group number %r" % (sg, cell.pg_num)
    assert cell.xtal_system == xtal.system(sg), "space group %d: crystal system %r" % (sg, cell.xtal_system)
    assert cell.laue_group == c12.LAUE_OF_PG[pgname], "space group %d: Laue group %r" % (sg, cell.laue_group)
    assert len(cell.apos) == len(atoms) and cell.n_s == len(atoms)
    tol = {None: 1e-9, 6: 4e-6, 5: 4e-5}[c["digits"]]
    for i, (o, a) in enumerate(zip(orbs, cell.apos)):
        a = N(a)
        assert ((a >= 0) & (a < 1)).all(), "positions outside the cell: %s" % a.tolist()
        assert len(a) == len(o), "space group %d setting %d: site %s has %d positions, expected %d" % (sg, setting, atoms[i][1:4], len(a), len(o))
        want = np.array([[float(v) for v in p] for p in o])
        d = a[:, None] - want[None]
        d = np.abs(d - np.rint(d)).max(-1)
        assert (d.min(0) < tol).all() and (d.min(1) < tol).all(), "space group %d setting %d: positions of site %s" % (sg, setting, atoms[i][1:4])
    m = np.array([len(o) for o in orbs], dtype=float)
    assert N(cell.mults).tolist() == m.tolist()
    occ, z = np.array([a[4] for a in atoms]), np.array([a[0] for a in atoms])
    w = N(atomic_weights)[z - 1]
    vol = math.sqrt(np.linalg.det(xtal.gram(abc, ang)[0]))
    rel_close(N(cell.density), (w * occ * m).sum() / vol / NA_, 1e-9, "density")
    rel_close(N(cell.average_atomic_number), (z * occ * m).sum() / (occ * m).sum(), 1e-9, "average atomic number")
    rel_close(N(cell.average_atomic_weight), (w * occ * m).sum() / (occ * m).sum(), 1e-9, "average atomic weight")
    assert cell.atom_ntype == len(set(z.tolist()))
    z2 = N(Cell.z2_percent(cell.atom_types, cell.mults, cell.atom_data[:, [0, 1, 2, 3]]))
    rel_close(z2, 100 * z * z * occ * m / (z * z * occ * m).sum(), 1e-9, "Z^2 percentages")
    s = str(cell)
    assert "Space Group: %d " % sg in s and "setting %d" % setting in s
    return ["system%d" % cell.xtal_system, "setting%d" % setting] + sorted(set(c["sites"]))


@sub("weights", st.fixed_dictionaries({"z": st.integers(1, 98)}), quick=120, thorough=300)
def _wt(c):
    """atomic weights: about the right size for the element, in order but for the known inversions"""
    w, z = N(atomic_weights), c["z"]
    if z == 1:
        assert abs(w[0] - 1.008) < 0.01
    else:
        n = w[z - 1] - z  # neutrons: from about Z to 1.6 Z
        assert 0.95 * z - 0.6 <= n + (1 if z < 3 else 0) and n <= 1.62 * z + 1, "weight of element %d: %g" % (z, w[z - 1])
    down = [i + 1 for i in range(97) if w[i + 1] < w[i]]
    assert set(down) <= {18, 27, 52, 90, 92, 93, 94, 95}, down
    return []


@sub("rhombohedral", st.fixed_dictionaries({"sg": st.sampled_from([146, 148, 155, 160, 161, 166, 167]), "seed": gen.seeds(), "n": st.integers(1, 3), "same": st.booleans()}),
     quick=80, thorough=2000)
def _rh(c):
    """a rhombohedral cell converted to hexagonal axes is the same crystal, as if it had been given that way"""
    r = gen.rng(c["seed"])
    ar, al = float(r.uniform(0.3, 0.8)), float(r.uniform(35, 110))
    pos = r.rand(c["n"], 3)
    z = [int(r.randint(1, 99)) for _ in range(c["n"])]
    if c["same"]:
        z = [z[0]] * c["n"]
    cell = make((ar,) * 3, (al,) * 3, c["sg"], 1, [(z[i], *pos[i], 1.0, 0.004) for i in range(c["n"])])
    Br = xtal.basis((ar,) * 3, (al,) * 3)
    x3 = Br @ np.ones(3)
    D = N(cell.dsm2)
    rel_close(D.T @ D, Br.T @ Br, 1e-6, "metric of the second structure matrix")
    rel_close(D @ np.ones(3), np.array([0, 0, np.linalg.norm(x3)]), 1e-6, "three-fold axis")
    cell.convert_from_R_to_H()
    P = np.array([[1, 0, 1], [-1, 1, 1], [0, -1, 1.0]])  # columns: a_H = a - b, b_H = b - c, c_H = a + b + c
    Bh = Br @ P
    G = Bh.T @ Bh
    k = 1e-9
    rel_close(N(cell.dmt), G, k, "metric of the hexagonal cell")
    rel_close(np.array([cell.alpha, cell.beta, cell.gamma]), np.deg2rad([90, 90, 120.0]), k, "angles")
    rel_close(N(cell.vol), 3 * np.linalg.det(Br), k, "volume")
    new = np.linalg.solve(P, pos.T).T
    close(N(cell.atom_data[:, :3]), new, 1e-9, "coordinates on hexagonal axes")
    ref = make((math.sqrt(G[0, 0]), math.sqrt(G[0, 0]), math.sqrt(G[2, 2])), (90.0, 90.0, 120.0), c["sg"], 1, [(z[i], *new[i], 1.0, 0.004) for i in range(c["n"])])
    for name in ("rmt", "dsm", "rsm", "density", "average_atomic_number", "average_atomic_weight"):
        rel_close(N(getattr(cell, name)), N(getattr(ref, name)), k, name)
    assert [len(a) for a in cell.apos] == [len(a) for a in ref.apos]
    return ["n%d" % c["n"]]


@sub("refused", st.fixed_dictionaries({"kind": st.sampled_from(["sg", "setting", "units", "aunits", "angles", "space", "zero"]), "seed": gen.seeds()}), quick=100, thorough=1000)
def _ref(c):
    """a structure that cannot be is refused, not quietly computed with"""
    r = gen.rng(c["seed"])
    k = c["kind"]
    def bad():
        if k == "sg":
            return make((.5,) * 3, (90.0,) * 3, int(r.choice([0, -1, 231, 500])))
        if k == "setting":
            return make((.5,) * 3, (90.0,) * 3, int(r.choice([s for s in range(1, 231) if " / " not in hall.HALL[s]])), 2)
        if k == "units":
            return Cell(1, [(6, 0, 0, 0, 1.0, .005)], (1., 1., 1.), "m", (90.,) * 3, "deg")
        if k == "aunits":
            return Cell(1, [(6, 0, 0, 0, 1.0, .005)], (1., 1., 1.), "nm", (90.,) * 3, "grad")
        if k == "angles":
            while True:
                ang = r.uniform(5, 175, 3)
                if np.linalg.det(xtal.gram((1, 1, 1), ang)[0]) < -1e-3:
                    return make((.5,) * 3, tuple(ang))
        cell = make((.5,) * 3, (80.0,) * 3)
        if k == "zero":  # no angle with a vector of zero length, first or second, alone or in a batch
            n = int(r.randint(1, 4))
            v = [torch.tensor(r.randn(n, 3)), torch.tensor(r.randn(n, 3))]
            v[r.randint(2)][r.randint(n)] = 0
            return cell.calc_angle(*v, "drc"[r.randint(3)])
        return cell.transform_space(torch.ones(3, dtype=torch.float64), *[("d", "x"), ("x", "d"), ("r", "z"), ("c", "")][r.randint(4)])
    try:
        got = bad()
    except ValueError:
        return [k]
    raise AssertionError("accepted: %s" % got)


# the batch law for the vector operations of a cell
_CELL = make((0.4, 0.5, 0.7), (80.0, 95.0, 105.0))
_SP = [(a, b) for a in "drc" for b in "drc"]
_v1 = lambda r, n: [r.randn(n, 3)]
_v2 = lambda r, n: [r.randn(n, 3), r.randn(n, 3)]
_d = {"dt": [str(_CELL.dsm.dtype).replace("torch.float", "f")]}
batch.add({
    "transform_space": {"fn": lambda v, a, b: _CELL.transform_space(v, a, b), "make": _v1, "opts": _SP, **_d},
    "transform_coordinates": {"fn": lambda v, s, d: _CELL.transform_coordinates(v, torch.tensor([[1.0, 2, 0], [0, 1, 1], [1, 0, 3]], dtype=v.dtype), s, d), "make": _v1,
                              "opts": [(s, d) for s in "drc" for d in ("on", "no")], **_d},
    "calc_dot": {"fn": lambda v, w, s: _CELL.calc_dot(v, w, s), "make": _v2, "opts": ["d", "r", "c"], **_d},
    "calc_length": {"fn": lambda v, s: _CELL.calc_length(v, s), "make": _v1, "opts": ["d", "r", "c"], **_d},
    "norm_vec": {"fn": lambda v, s: _CELL.norm_vec(v, s), "make": _v1, "opts": ["d", "r", "c"], **_d},
    "calc_angle": {"fn": lambda v, w, s: _CELL.calc_angle(v, w, s), "make": _v2, "opts": ["d", "r", "c"], **_d},
    "calc_cross": {"fn": lambda v, w, a, b, k: _CELL.calc_cross(v, w, a, b, k), "make": _v2, "opts": [s + (k,) for s in _SP for k in (False, True)], **_d},
}, quick=200)


finish_module(globals())
