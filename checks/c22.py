"""C22 integer factorisation."""
import math
import random

from vlib import gen
from vlib.harness import finish_module, st, sub

from ebsdtorch.utils.factorize import FactorECM, nearly_square_factors

RULE = ("A case is a positive integer: uniform up to 10^5, a product of drawn primes (repeated, equal, or two large ones) up to 10^16, a prime power, "
        "a Carmichael number, a factorial or a highly composite grid size; non-trivial when it has at least two prime factors.")
ASSUMPTIONS = ["primality of the reported factors by deterministic Miller-Rabin (exact below 3.3e24)",
               "cofactors of two large primes stay below 10^16 so that the elliptic-curve search ends quickly"]
CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921,
              126217, 162401, 172081, 188461, 252601, 278545, 294409, 314821, 334153, 340561, 399001, 410041, 449065, 488881, 512461,
              825265, 321197185, 5394826801, 232250619601, 9746347772161]


def prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    while not prime(n):
        n += 1
    return n


@st.composite
def numbers(draw):
    k = draw(st.sampled_from(["small", "small", "product", "product", "semiprime", "power", "carmichael", "grid", "factorial"]))
    if k == "small":
        return {"kind": k, "n": draw(st.integers(1, 100000))}
    if k == "product":
        n = 1
        for _ in range(draw(st.integers(1, 8))):
            p = next_prime(draw(st.one_of(st.integers(2, 50), st.integers(2, 50000))))
            if n * p < 10 ** 16:
                n *= p
        return {"kind": k, "n": n}
    if k == "semiprime":
        return {"kind": k, "n": next_prime(draw(st.integers(2, 10 ** 6))) * next_prime(draw(st.integers(2, 10 ** 6)))}
    if k == "power":
        p = next_prime(draw(st.integers(2, 3000)))
        e = draw(st.integers(1, max(1, int(15 / math.log10(p + 1)))))
        return {"kind": k, "n": p ** min(e, 12)}
    if k == "carmichael":
        return {"kind": k, "n": draw(st.sampled_from(CARMICHAEL)) * draw(st.sampled_from([1, 1, 2, 7, 561]))}
    if k == "grid":
        return {"kind": k, "n": draw(st.integers(1, 4096)) * draw(st.integers(1, 4096)) * draw(st.integers(1, 512))}
    return {"kind": k, "n": math.factorial(draw(st.integers(1, 17)))}


@sub("prime_factors", numbers(), quick=600, thorough=40000, nontrivial=lambda c: c["n"] > 3 and not prime(c["n"]))
def _factors(c):
    """ascending primes whose product is the number"""
    n = c["n"]
    random.seed(n)
    f = FactorECM(n)
    assert math.prod(f) == n, "product of %r is not %d" % (f, n)
    assert all(prime(p) for p in f), "%r holds a composite" % (f,)
    assert list(f) == sorted(f), "%r not ascending" % (f,)
    return [c["kind"], "prime" if len(f) == 1 else "composite"]


@sub("two_factors", numbers(), quick=300, thorough=20000, nontrivial=lambda c: c["n"] > 3 and not prime(c["n"]))
def _square(c):
    """two integers whose product is the number, no more unbalanced than its largest prime"""
    n = c["n"]
    random.seed(n)
    a, b = nearly_square_factors(n)
    assert isinstance(a, int) and isinstance(b, int) and a >= 1 and b >= 1
    assert a * b == n, "%d * %d is not %d" % (a, b, n)
    f = FactorECM(n)
    p = max(f, default=1)
    assert max(a, b) <= p * min(a, b), "%d x %d for %d" % (a, b, n)
    # no further from a square than dealing out the primes, largest first, to the smaller side
    g = [1, 1]
    for q in sorted(f, reverse=True):
        g[g[0] > g[1]] *= q
    assert max(a, b) <= max(g), "%d x %d for %d = %d x %d" % (a, b, n, g[0], g[1])
    return [c["kind"]]


@sub("rejects", st.fixed_dictionaries({"n": st.integers(-1000, 0)}), quick=20)
def _rej(c):
    try:
        f = FactorECM(c["n"])
    except ValueError:
        return []
    raise AssertionError("%r for %d" % (f, c["n"]))


finish_module(globals())
