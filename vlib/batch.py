"""Batch law: a function of single items gives every item of a batch the result it has on its own.

Whatever the number of items, their arrangement in leading dimensions, the memory layout of the tensor or the
position of an item, the result is that of a small contiguous batch; inputs stay as they were.
"""
import numpy as np
import torch

from . import gen
from .harness import st, sub
from .tu import DT

SIZES = [1, 0, 2, 3, 7, 33, 100, 257, 1000, 1025, 2500, 4099, 20011, 66000]
MEM = ["plain", "plain", "inner", "rows", "window", "moved"]
BASE = 24


def strategy(table):
    @st.composite
    def cases(draw):
        name = draw(st.sampled_from(sorted(table)))
        e = table[name]
        return {"fn": name, "n": draw(st.sampled_from([s for s in SIZES if e.get("lo", 0) <= s <= e.get("cap", 66000)])),
                "lead": draw(st.integers(1, e.get("nd", 3))), "mem": draw(st.sampled_from(e.get("mem", MEM))), "dt": draw(st.sampled_from(e.get("dt", ["f32", "f64"]))),
                "opt": draw(st.sampled_from(e["opts"])) if "opts" in e else None, "grad": draw(st.booleans()), "seed": draw(gen.seeds())}
    return cases()


def place(x, mem):
    """the same values in another layout"""
    if mem == "inner":  # every other element along the last dimension
        return torch.stack([x, torch.full_like(x, 7.0)], -1)[..., 0]
    if mem == "rows":  # every third item
        return torch.stack([x, torch.full_like(x, 7.0), x * 0 - 3.0], 1).flatten(0, 1)[::3]
    if mem == "window":  # a part of a larger tensor
        big = torch.full((x.shape[0] + 3,) + tuple(x.shape[1:-1]) + (x.shape[-1] + 2,) if x.dim() > 1 else (x.shape[0] + 3,), 5.0, dtype=x.dtype)
        v = big[2:-1]
        v = v[..., 1:-1] if x.dim() > 1 else v
        v.copy_(x)
        return v
    if mem == "moved":  # items last in memory
        return x.movedim(0, -1).contiguous().movedim(-1, 0)
    return x


def shape_lead(n, k, r):
    """n items in k leading dimensions (padded up to a product of divisors)"""
    s = []
    for _ in range(k - 1):
        d = [i for i in range(1, 40) if n % i == 0] if n else [1, 3]
        i = d[r.randint(len(d))]
        s.append(i)
        n //= i
    s.insert(r.randint(len(s) + 1), n)
    return s


def flat(out):
    if isinstance(out, torch.Tensor):
        return [out]
    return [o for x in out for o in flat(x)]


def law(c, table):
    e = table[c["fn"]]
    r = gen.rng(c["seed"])
    extra = () if c["opt"] is None else tuple(c["opt"]) if isinstance(c["opt"], (list, tuple)) else (c["opt"],)
    base = [torch.tensor(a, dtype=DT[c["dt"]]) for a in e["make"](r, BASE)]
    f = lambda xs: flat(e["fn"](*xs, *extra))
    one = f(base)
    idx = r.randint(BASE, size=c["n"])
    if c["n"] >= 3:
        idx[-1] = (idx[0] + 1) % BASE  # the last item is not the first one repeated
    ti = torch.tensor(idx)
    lead = shape_lead(c["n"], c["lead"], r)
    xs = []
    for b in base:
        x = place(b[ti].reshape(lead + list(b.shape[1:])), c["mem"])
        xs.append(x.detach().requires_grad_(True) if c["grad"] and e.get("grad", True) else x)
    keep = [x.detach().clone() for x in xs]
    got = f(xs)
    for x, k in zip(xs, keep):
        assert torch.equal(x.detach(), k), "%s modifies its input" % c["fn"]
    assert len(got) == len(one)
    tol = 2e-5 if c["dt"] == "f32" else 1e-10
    # how far rounding of the input moves each result (other layouts may be computed by other instructions)
    eps = 4e-7 if c["dt"] == "f32" else 2e-15
    moved = [f([b + eps * b.abs() * torch.tensor(r.uniform(-1, 1, b.shape), dtype=b.dtype) for b in base]) for _ in range(5)]
    for k, (g, o) in enumerate(zip(got, one)):
        g, o = g.detach(), o.detach()
        assert list(g.shape) == lead + list(o.shape[1:]), "%s of shape %s gives shape %s" % (c["fn"], lead, list(g.shape))
        g = g.reshape([c["n"]] + list(o.shape[1:]))
        w = o[ti]
        if g.dtype in (torch.bool, torch.int64, torch.int32, torch.uint8):
            bad = (g != w) & ~torch.stack([m[k] != o for m in moved]).any(0)[ti]
        else:
            assert g.dtype == w.dtype, "%s gives %s for one batch and %s for another" % (c["fn"], w.dtype, g.dtype)
            slack = 20 * torch.stack([(m[k].detach() - o).abs() for m in moved]).amax(0)[ti].nan_to_num(torch.inf)
            bad = ~((g - w).abs() <= tol * (1 + w.abs()) + slack) & ~(g == w) & ~(g.isnan() & w.isnan())
        if bad.any():
            i = tuple(int(k) for k in bad.nonzero()[0])
            raise AssertionError("%s: item %d of %s (%s) gives %r, on its own %r" % (c["fn"], i[0], lead, c["mem"], g[i].item(), w[i].item()))
    return [c["fn"], c["mem"], "n%d" % c["n"]]


def add(table, quick=250, thorough=8000):
    """register the sub-property "batches" in the calling module"""
    @sub("batches", strategy(table), quick=quick, thorough=thorough, nontrivial=lambda c: c["n"] > 1, budget=60)
    def _batches(c):
        return law(c, table)
    return _batches


def haar(r, n):
    q = r.randn(n, 4)
    q /= np.linalg.norm(q, axis=-1, keepdims=True)
    return q * np.where(q[:, :1] < 0, -1, 1)


def dirs(r, n):
    v = r.randn(n, 3)
    return v / np.linalg.norm(v, axis=-1, keepdims=True)
