"""C13 chunked nearest-neighbour search equals brute force."""
import contextlib
import io

import numpy as np
import torch

from vlib import gen
from vlib.harness import finish_module, st, sub
from vlib.tu import DT, N, T, close

from ebsdtorch.utils.knn import ChunkedKNN

RULE = ("A case is a data set and a query set (random, with duplicates, zeros, or clustered), a metric, a dtype and a history of "
        "data chunks each queried in full or in random query ranges; non-trivial when there are at least two data chunks.")
ASSUMPTIONS = ["brute force in float64; float16 and int8 (quantised) results are judged within their rounding error",
               "each query meets each data chunk once; entries are judged once a query has met at least top-k data rows"]


@st.composite
def cases(draw):
    chunks = draw(st.lists(gen.size(1, 9, 64, 257, 1500, rare=20), min_size=1, max_size=5))
    nq = draw(gen.size(1, 9, 40, 300, rare=12))
    n = sum(chunks)
    plan = []
    for _ in chunks:
        kind = draw(st.sampled_from(["all", "split", "split", "some"]))
        cuts = sorted(set(draw(st.lists(st.integers(1, max(1, nq - 1)), min_size=0, max_size=3)))) if kind != "all" else []
        edges = [0] + [c for c in cuts if c < nq] + [nq]
        ranges = [[a, b] for a, b in zip(edges, edges[1:])]
        if kind == "some":
            keep = draw(st.lists(st.booleans(), min_size=len(ranges), max_size=len(ranges)))
            ranges = [r for r, k in zip(ranges, keep) if k]
        order = draw(st.permutations(range(len(ranges))))
        plan.append([kind, [ranges[i] for i in order]])
    return {"chunks": chunks, "nq": nq, "d": draw(gen.size(1, 8, 33, 128)), "k": min(n, draw(gen.size(1, min(6, n), 20, 100))), "plan": plan,
            "metric": draw(st.sampled_from(["angular", "angular", "euclidean", "manhattan"])), "quant": draw(st.booleans()),
            "dt": draw(st.sampled_from(["f32", "f32", "f16", "f64"])), "kind": draw(st.sampled_from(["randn", "dups", "ints", "offset"])),
            "seed": draw(gen.seeds())}


def data(c):
    r = gen.rng(c["seed"])
    n, q, d = sum(c["chunks"]), c["nq"], c["d"]
    X, Q = r.randn(n, d), r.randn(q, d)
    if c["kind"] == "dups":
        X = X[r.randint(0, max(1, n // 2), n)]
    elif c["kind"] == "ints":
        X, Q = r.randint(-3, 4, (n, d)).astype(float), r.randint(-3, 4, (q, d)).astype(float)
    elif c["kind"] == "offset":
        X = X - 5.0  # all dot products negative, all distances large
        Q = Q + 5.0
    return X, Q


def dist(X, Q, metric):
    if metric == "angular":
        return Q @ X.T
    if metric == "euclidean":
        return ((Q[:, None] - X[None]) ** 2).sum(-1)
    return np.abs(Q[:, None] - X[None]).sum(-1)


@sub("history", cases(), quick=700, thorough=20000, nontrivial=lambda c: len(c["chunks"]) > 1)
def _history(c):
    X, Q = data(c)
    quant = c["quant"] and c["metric"] == "angular"
    dt = "f32" if quant else c["dt"]
    if not quant:
        X, Q = N(T(X, dt)), N(T(Q, dt))  # what the search sees
    D = dist(X, Q, c["metric"])
    sgn = -1.0 if c["metric"] == "angular" else 1.0
    with contextlib.redirect_stdout(io.StringIO()):
        knn = ChunkedKNN(len(X), len(Q), c["k"], torch.device("cpu"), c["metric"], DT[c["dt"]], c["quant"])
    seen = [[] for _ in range(len(Q))]
    a = 0
    tX, tQ = T(X, "f32" if dt == "f16" else dt), T(Q, "f32" if dt == "f16" else dt)
    for n, (kind, ranges) in zip(c["chunks"], c["plan"]):
        knn.set_data_chunk(tX[a:a + n])
        if kind == "all":
            knn.query_all(tQ)
            ranges = [[0, len(Q)]]
        else:
            for lo, hi in ranges:
                knn.query_chunk(tQ[lo:hi], lo)
        for lo, hi in ranges:
            for i in range(lo, hi):
                seen[i] += range(a, a + n)
        a += n
    ind, val = knn.retrieve_topk()
    ind, val = ind.numpy(), N(val)
    assert ind.shape == (len(Q), c["k"]) and val.shape == ind.shape
    scale = np.abs(X).max() * np.abs(Q).max() * X.shape[1] if c["metric"] != "manhattan" else (np.abs(X).max() + np.abs(Q).max()) * X.shape[1]
    if c["metric"] == "euclidean":
        scale = (np.abs(X).max() + np.abs(Q).max()) ** 2 * X.shape[1]
    tol = (0.05 if quant else {"f64": 1e-12, "f32": 1e-5, "f16": 8e-3}[dt]) * scale + 1e-12
    if c["dt"] == "f64" and not quant and c["metric"] == "euclidean":
        tol = max(tol, 1e-5 * scale)  # the metric is accumulated in single precision by design
    for i in range(len(Q)):
        if len(seen[i]) < c["k"]:
            continue
        assert set(ind[i]) <= set(seen[i]), "query %d: neighbours %r outside the data it met" % (i, ind[i].tolist())
        assert len(set(ind[i].tolist())) == c["k"], "query %d: repeated neighbour %r" % (i, ind[i].tolist())
        best = np.sort(sgn * D[i, seen[i]])[:c["k"]]
        got = sgn * D[i, ind[i]]
        close(np.sort(got), best, 2 * tol, "query %d: neighbours %r, true best values" % (i, ind[i].tolist()))
        close(val[i], D[i, ind[i]], tol, "query %d: reported metric" % i)
        assert (np.diff(sgn * val[i]) >= 0).all(), "query %d: not sorted best first: %r" % (i, val[i].tolist())
    assert np.array_equal(N(tX), X if quant is False else N(T(X, dt))), "data modified"
    return [c["metric"], "int8" if quant else dt, "k%d" % min(c["k"], 3)]


@sub("large", st.fixed_dictionaries({"seed": gen.seeds(), "n": st.sampled_from([33000, 40000, 66000, 131100]), "cut": st.lists(st.integers(1, 32999), min_size=0, max_size=2),
                                    "metric": st.sampled_from(["angular", "euclidean", "manhattan"]), "k": st.integers(1, 4), "d": st.integers(2, 4), "quant": st.booleans(), "all": st.booleans()}),
     quick=12, thorough=400)
def _large(c):
    r = gen.rng(c["seed"])
    n, edges = c["n"], [0] + sorted(set(c["cut"])) + [c["n"]]
    X, Q = r.randn(n, c["d"]), r.randn(5, c["d"])
    X[-20:] = X[-20:] * 0.3 + (3 * Q[r.randint(5, size=20)] if c["metric"] == "angular" else Q[r.randint(5, size=20)])  # good matches at the far end
    X, Q = N(T(X, "f32")), N(T(Q, "f32"))
    with contextlib.redirect_stdout(io.StringIO()):
        knn = ChunkedKNN(n, 5, c["k"], torch.device("cpu"), c["metric"], torch.float32, c["quant"])
    for a, b in zip(edges, edges[1:]):
        knn.set_data_chunk(T(X[a:b], "f32"))
        if c["all"]:
            knn.query_all(T(Q, "f32"))
        else:
            knn.query_chunk(T(Q[3:], "f32"), 3)
            knn.query_chunk(T(Q[:3], "f32"), 0)
    ind, val = knn.retrieve_topk()
    ind, val = ind.numpy(), N(val)
    D = dist(X, Q, c["metric"])
    sgn = -1.0 if c["metric"] == "angular" else 1.0
    tol = (0.05 if c["quant"] and c["metric"] == "angular" else 1e-5) * (1 + np.abs(X).max() * np.abs(Q).max() * c["d"])
    for i in range(5):
        assert ind[i].min() >= 0 and ind[i].max() < n and len(set(ind[i].tolist())) == c["k"], "query %d of %d rows: indices %r" % (i, n, ind[i].tolist())
        close(np.sort(sgn * D[i, ind[i]]), np.sort(sgn * D[i])[:c["k"]], 2 * tol, "query %d of %d rows: neighbours %r, true best values" % (i, n, ind[i].tolist()))
        close(val[i], D[i, ind[i]], tol, "query %d: reported metric" % i)
    return [c["metric"], "n%d" % n]


@sub("errors", st.just({}), quick=1)
def _errors(c):
    for f in (lambda k: k.query_all(torch.zeros(2, 3)), lambda k: k.query_chunk(torch.zeros(2, 3), 0)):
        k = ChunkedKNN(5, 2, 1, torch.device("cpu"), match_dtype=torch.float32)
        try:
            f(k)
        except ValueError:
            continue
        raise AssertionError("query without data accepted")
    return []


finish_module(globals())
