"""C16 online covariance and online PCA: streaming in any batches equals the whole data set."""
import numpy as np
import torch

from vlib import gen
from vlib.harness import finish_module, st, sub
from vlib.tu import DT, N, T, close

from ebsdtorch.utils.pca_covmat import OnlineCovMatrix
from ebsdtorch.utils.pca_online import KrasulinaPCA, OjaPCA

RULE = ("A case is a data set (correlated, offset, rank-deficient, scaled) cut into 1-8 batches of 1-12 rows; non-trivial when it is cut "
        "into at least two batches.")
ASSUMPTIONS = ["oracles in NumPy float64 on the whole data set", "single-precision results judged relative to the second moment of the data",
               "Oja++ is only claimed to run and to end orthonormal once every column is initialised"]


@st.composite
def streams(draw):
    sizes = draw(st.lists(gen.size(1, 12, 100, 1500, rare=20), min_size=1, max_size=8))
    return {"sizes": sizes, "d": draw(gen.size(1, 8, 20, 50)), "seed": draw(gen.seeds()), "offset": draw(st.sampled_from([0.0, 0.0, 1.0, 50.0])),
            "rank": draw(st.integers(1, 8)), "scale": draw(st.sampled_from([1.0, 0.01, 30.0])), "dt": draw(gen.dtypes()),
            "corr": draw(st.booleans()), "peek": draw(st.booleans()), "drift": draw(st.booleans())}


def data(c):
    r = gen.rng(c["seed"])
    n = sum(c["sizes"])
    k = min(c["rank"], c["d"])
    X = r.randn(n, k) @ r.randn(k, c["d"])
    if c.get("drift"):
        X = X + np.linspace(0, 3, n)[:, None]
    return c["scale"] * (X + c["offset"])


@sub("covariance", streams(), quick=500, thorough=15000, nontrivial=lambda c: len(c["sizes"]) > 1)
def _cov(c):
    X = N(T(data(c), c["dt"]))
    m = OnlineCovMatrix(c["d"], covmat_dtype=DT[c["dt"]], delta_dtype=DT[c["dt"]], correlation=c["corr"])
    a = 0
    for s in c["sizes"]:
        x = T(X[a:a + s], c["dt"])
        keep = x.clone()
        m(x)
        assert torch.equal(x, keep), "batch modified"
        a += s
        if c["peek"] and a > 1:
            m.get_covmat()
            m.get_eigenvectors()
        assert int(m.obs) == a, "%d observations counted of %d" % (int(m.obs), a)
        scale = np.abs(X[:a]).max() + 1e-30
        eps = {"f64": 1e-12, "f32": 3e-6}[c["dt"]]
        close(N(m.mean).reshape(-1), X[:a].mean(0), eps * scale, "mean after %d rows" % a)
        if a < 2:
            continue
        C = np.cov(X[:a].T).reshape(c["d"], c["d"])
        got = N(m.covmat_aggregate / (m.obs - 1))
        close(got, C, eps * scale ** 2 * 10, "covariance after %d rows" % a)
    if a < 2:
        return []
    if c["corr"]:
        sd = np.sqrt(np.diag(C))
        if sd.min() > 0.05 * scale * (1 if c["dt"] == "f32" else 1e-3):
            close(N(m.get_covmat()), C / np.outer(sd, sd), eps * 10 * (scale / sd.min()) ** 2, "correlation")
        else:
            return ["flat"]
    else:
        close(N(m.get_covmat()), C, eps * scale ** 2 * 10, "covariance")
    ref = N(m.get_covmat())
    V = N(m.get_eigenvectors())
    close(V.T @ V, np.eye(c["d"]), eps * 50, "eigenvectors not orthonormal")
    top = np.abs(ref).max() + 1e-30
    D = V.T @ ref @ V
    close(D - np.diag(np.diag(D)), np.zeros_like(D), eps * 50 * (top + scale ** 2 * (0 if c["corr"] else 1)) * c["d"], "eigenvectors do not diagonalise the matrix")
    assert (np.diff(np.diag(D)) >= -eps * 50 * top * c["d"]).all(), "eigenvectors not in ascending order: %r" % np.diag(D).tolist()
    return [c["dt"], "corr" if c["corr"] else "cov"]


@st.composite
def pcas(draw):
    d = draw(gen.size(1, 10, 24, 60))
    k = draw(st.integers(1, min(d, 10)))
    return {"sizes": draw(st.lists(gen.size(1, 12, 100, 700, rare=20), min_size=1, max_size=8)), "d": d, "k": k, "seed": draw(gen.seeds()), "rank": draw(st.integers(1, 10)),
            "offset": 0.0, "scale": draw(st.sampled_from([1.0, 0.05, 8.0])), "eta": draw(st.sampled_from([0.5, 0.05, 2.0])), "dt": draw(gen.dtypes()),
            "plus": draw(st.booleans())}


def proj(B):
    q, _ = np.linalg.qr(B)
    return q @ q.T


@sub("oja", pcas(), quick=400, thorough=10000, nontrivial=lambda c: len(c["sizes"]) > 1)
def _oja(c):
    torch.manual_seed(c["seed"] % 2**31)
    X = data(c)
    m = OjaPCA(c["d"], c["k"], eta=c["eta"], dtype=DT[c["dt"]], use_oja_plus=c["plus"])
    eps = {"f64": 1e-10, "f32": 3e-5}[c["dt"]]
    a = 0
    for i, s in enumerate(c["sizes"]):
        x = T(X[a:a + s], c["dt"])
        Q0 = N(m.Q).copy()
        m(x)
        a += s
        Q = N(m.Q)
        assert int(m.step) == i + 1 and Q.shape == (c["d"], c["k"]) and np.isfinite(Q).all(), "step %r" % int(m.step)
        if c["plus"]:
            continue
        close(Q.T @ Q, np.eye(c["k"]), eps, "columns not orthonormal")
        B = Q0 + c["eta"] * N(x).T @ (N(x) @ Q0)
        sv = np.linalg.svd(B, compute_uv=False)
        if sv[-1] > 1e-3 * sv[0]:
            close(Q @ Q.T, proj(B), eps * 10 * sv[0] / sv[-1], "subspace after the update")
    if c["plus"]:
        for _ in range(c["k"] * max(1, c["k"] // 2) + 2):
            m(T(X, c["dt"]))
        Q = N(m.Q)
        assert bool(m.initialized_cols.all()), "columns never initialised"
        m(T(X, c["dt"]))
        Q = N(m.Q)
        close(Q.T @ Q, np.eye(c["k"]), eps * 10, "columns not orthonormal after the initialisation")
    x = T(X, c["dt"])
    z = m.transform(x)
    close(N(z), N(x) @ Q, eps * 10 * (np.abs(X).max() + 1) * c["d"], "projection")
    close(N(m.inverse_transform(z)), N(x) @ Q @ Q.T, eps * 10 * (np.abs(X).max() + 1) * c["d"], "reconstruction")
    close(N(m.get_components()), Q, 0.0, "components")
    return ["plus" if c["plus"] else "plain", c["dt"]]


def residual(C, X):
    return np.linalg.norm(X - X @ proj(C))


@sub("krasulina", pcas(), quick=400, thorough=10000, nontrivial=lambda c: len(c["sizes"]) > 1)
def _kras(c):
    torch.manual_seed(c["seed"] % 2**31)
    X = data(c)
    m = KrasulinaPCA(c["d"], c["k"], eta=c["eta"], dtype=DT["f64"])
    a = 0
    for s in c["sizes"]:
        x = T(X[a:a + s], "f64")
        C0 = N(m.C).copy()
        if np.linalg.cond(C0) > 1e4:
            return ["illconditioned"]
        e0 = residual(C0, N(x))
        m(x)
        a += s
        C = N(m.C)
        cond = np.linalg.cond(C)
        if cond > 1e4:
            return ["illconditioned"]
        # the implicit step: C' minimises |C' - C|^2 / eta + |x - C' z|^2 at the projections z by the old components
        z = np.linalg.pinv(C0) @ N(x).T
        want = np.linalg.solve(np.eye(c["k"]) + c["eta"] * z @ z.T, (C0 + c["eta"] * N(x).T @ z.T).T).T
        close(C, want, 1e-9 * np.linalg.cond(C0) ** 2 * (np.abs(want).max() + 1), "components after a batch of %d" % s)
        close(N(m.C_cross) @ C, np.eye(c["k"]), 1e-12 * cond ** 2 + 1e-11, "pseudo-inverse of the components")
        e1 = residual(C, N(x))
        assert e1 <= e0 * (1 + 1e-9) + 1e-9 * np.linalg.norm(x), "an update raised the reconstruction error of its own batch: %r -> %r" % (e0, e1)
    U = N(m.get_components())
    close(U.T @ U, np.eye(c["k"]), 1e-9, "components not orthonormal")
    close(U @ U.T, proj(C), 1e-9 * cond, "components span another subspace")
    x = T(X, "f64")
    close(N(m.inverse_transform(m.transform(x))).T, X @ proj(C), 1e-9 * cond ** 2 * (np.abs(X).max() + 1), "reconstruction")
    return ["k%d" % min(c["k"], 3)]


@sub("convergence", st.fixed_dictionaries({"d": st.integers(3, 8), "k": st.integers(1, 2), "seed": gen.seeds(),
                                           "alg": st.sampled_from(["oja", "krasulina"]), "b": st.integers(2, 40)}), quick=60, thorough=1500)
def _conv(c):
    """many passes over exactly rank-k data end in its subspace"""
    r = gen.rng(c["seed"])
    torch.manual_seed(c["seed"] % 2**31)
    B = np.linalg.qr(r.randn(c["d"], c["k"]))[0]
    X = r.randn(200, c["k"]) @ np.diag(1 + r.rand(c["k"])) @ B.T
    m = (OjaPCA if c["alg"] == "oja" else KrasulinaPCA)(c["d"], c["k"], eta=0.5, dtype=torch.float64)
    for _ in range(40):
        for a in range(0, 200, c["b"]):
            m(T(X[a:a + c["b"]], "f64"))
    U = N(m.get_components())
    close(U @ U.T, B @ B.T, 1e-3, "%s does not converge to the subspace of the data" % c["alg"])
    return [c["alg"]]


finish_module(globals())
