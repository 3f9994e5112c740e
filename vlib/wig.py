"""Wigner d functions from the eigen-decomposition of J_y: independent of every recursion in the library"""
import functools

import numpy as np


@functools.lru_cache(maxsize=64)
def _eig(l):
    m = np.arange(-l, l)
    jp = np.sqrt(l * (l + 1.0) - m * (m + 1.0)) / 2
    jy = np.zeros((2 * l + 1, 2 * l + 1), complex)
    i = np.arange(2 * l)
    jy[i + 1, i] = -1j * jp
    jy[i, i + 1] = 1j * jp
    w, v = np.linalg.eigh(jy)
    return np.round(w), v


def small_d(l, beta):
    """<l m| exp(-i beta J_y) |l n> at [m + l, n + l] (Condon-Shortley)"""
    if l == 0:
        return np.ones((1, 1))
    w, v = _eig(l)
    return ((v * np.exp(-1j * beta * w)) @ v.conj().T).real


def table(beta, lmax, only=None):
    """{l: array of d^l_{n m} for 0 <= n <= m <= l, in the order of the library's tables}"""
    out = {}
    for l in (range(lmax + 1) if only is None else only):
        d = small_d(l, beta)
        i, j = np.tril_indices(l + 1)
        out[l] = d[j + l, i + l]
    return out


def big_d(l, a, b, g):
    """exp(-i m a) d(b) exp(-i n g)"""
    m = np.arange(-l, l + 1)
    return np.exp(-1j * m * a)[:, None] * small_d(l, b) * np.exp(-1j * m * g)[None, :]


def sph(l, m, theta, phi):
    """orthonormal Y_lm at azimuth theta (T) and polar angle phi (P): (T, P)"""
    p = np.array([small_d(l, b)[m + l, l] for b in phi])
    return np.sqrt((2 * l + 1) / (4 * np.pi)) * p[None, :] * np.exp(1j * m * np.asarray(theta))[:, None]
