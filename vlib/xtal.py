"""Crystal structures for the checks: lattices, sites and the exact orbits of sites."""
import math
from fractions import Fraction

import numpy as np

from . import gen, hall

BEG = [1, 3, 16, 75, 143, 168, 195]


def system(sg):
    return sum(b <= sg for b in BEG)


def lattice(sg, r):
    """(abc in nm, angles in degrees) of a lattice the space group allows"""
    a, b, c = r.uniform(0.25, 0.9, 3)
    s = system(sg)
    if s == 1:
        while True:
            ang = r.uniform(55, 125, 3)
            if gram((1, 1, 1), ang)[1] > 0.3:
                return (a, b, c), tuple(ang)
    if s == 2:
        return (a, b, c), (90.0, r.uniform(65, 125), 90.0)
    if s == 3:
        return (a, b, c), (90.0, 90.0, 90.0)
    if s == 4:
        return (a, a, c), (90.0, 90.0, 90.0)
    if s in (5, 6):
        return (a, a, c), (90.0, 90.0, 120.0)
    return (a, a, a), (90.0, 90.0, 90.0)


def gram(abc, ang):
    """metric tensor and volume / (abc) of a lattice"""
    a, b, c = abc
    al, be, ga = (math.cos(math.radians(x)) for x in ang)
    g = np.array([[a * a, a * b * ga, a * c * be], [a * b * ga, b * b, b * c * al], [a * c * be, b * c * al, c * c]])
    d = np.linalg.det(g) / (a * b * c) ** 2
    return g, (math.sqrt(d) if d > 0 else -1.0)


def basis(abc, ang):
    """columns: lattice vectors in the Cartesian frame with a along x and b in the xy plane"""
    return np.linalg.cholesky(gram(abc, ang)[0]).T


SPECIAL = [Fraction(0), Fraction(1, 2), Fraction(1, 4), Fraction(3, 4), Fraction(1, 3), Fraction(2, 3), Fraction(1, 8),
           Fraction(5, 8), Fraction(3, 8), Fraction(1, 6), Fraction(5, 6)]


def site(r, kind):
    """exact fractional coordinates of a site, generic or special"""
    f = [Fraction(int(r.randint(0, 9973)), 9973) for _ in range(3)]
    if kind == "special":
        return tuple(SPECIAL[r.randint(len(SPECIAL))] for _ in range(3))
    if kind == "line":
        x = f[0]
        p = [(x, x, x), (x, -x, x), (x, 2 * x, SPECIAL[r.randint(4)]), (x, x, Fraction(0)), (x, -x, Fraction(1, 2)), (x, Fraction(0), Fraction(1, 4)),
             (Fraction(1, 4), x, Fraction(1, 4)), (Fraction(1, 3), Fraction(2, 3), x), (Fraction(0), Fraction(0), x), (Fraction(1, 2), x, Fraction(0)),
             (x, x + Fraction(1, 2), Fraction(1, 2)), (Fraction(1, 8), x, Fraction(1, 4) - x)][r.randint(12)]
        return p
    if kind == "plane":
        x, z = f[0], f[1]
        return [(x, x, z), (x, -x, z), (x, 2 * x, z), (Fraction(0), x, z), (x, Fraction(1, 4), z), (x, z, Fraction(0)), (x, z, Fraction(1, 4))][r.randint(7)]
    return tuple(f)


def orbit(sg, setting, x):
    """exact set of positions equivalent to x, reduced to [0, 1)"""
    out = set()
    for rot, t in hall.group(sg, setting):
        out.add(tuple((sum(rot[3 * i + j] * x[j] for j in range(3)) + Fraction(t[i], hall.D)) % 1 for i in range(3)))
    return out


def apart(x, y):
    d = abs(x - y) % 1
    return min(d, 1 - d)


def crowded(orb, lo=Fraction(1, 500)):
    """are two different positions of the orbit nearly equal?"""
    o = sorted(orb)
    if len(o) == 1:
        return False
    arr = np.array([[float(v) for v in p] for p in o])
    d = arr[:, None] - arr[None]
    d -= np.rint(d)
    s = np.abs(d).sum(-1) + 9 * np.eye(len(o))
    return bool(s.min() < float(lo))
