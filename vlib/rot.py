"""Independent float64 oracle for rotation representations (numpy only).

Conventions as documented by the repository's tests: passive/active handling is
fixed by the quaternion -> matrix map ``qu2om`` (R v = q v q*), the axis-angle
pair (n, w) with q = (cos w/2, sin w/2 n), and Bunge angles through
q = (c cos s, -s cos d, -s sin d, -c sin s) (Rowenhorst 2015, P = -1).
"""
import math

import numpy as np

PI = math.pi
HO_MAX = (0.75 * PI) ** (1.0 / 3.0)
CU_HALF = PI ** (2.0 / 3.0) / 2.0


def nrm(q):
    q = np.asarray(q, float)
    return q / np.linalg.norm(q, axis=-1, keepdims=True)


def qpos(q):
    q = np.array(q, float)
    q[q[..., 0] < 0] *= -1
    return q


def qmul(a, b):
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    w0, x0, y0, z0 = np.moveaxis(a, -1, 0)
    w1, x1, y1, z1 = np.moveaxis(b, -1, 0)
    return np.stack([
        w0 * w1 - x0 * x1 - y0 * y1 - z0 * z1,
        w0 * x1 + x0 * w1 + y0 * z1 - z0 * y1,
        w0 * y1 - x0 * z1 + y0 * w1 + z0 * x1,
        w0 * z1 + x0 * y1 - y0 * x1 + z0 * w1], axis=-1)


def qconj(q):
    return np.asarray(q, float) * np.array([1.0, -1, -1, -1])


def qrot(q, v):
    q = np.asarray(q, float)
    v = np.asarray(v, float)
    z = np.concatenate([np.zeros(v.shape[:-1] + (1,)), v], axis=-1)
    return qmul(qmul(q, z), qconj(q))[..., 1:]


def q2R(q):
    q = nrm(q)
    w, x, y, z = np.moveaxis(q, -1, 0)
    R = np.stack([
        1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
        2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
        2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], axis=-1)
    return R.reshape(q.shape[:-1] + (3, 3))


def q_angle(q):
    """rotation angle in [0, pi], accurate at both ends"""
    q = np.asarray(q, float)
    return 2 * np.arctan2(np.linalg.norm(q[..., 1:], axis=-1), np.abs(q[..., 0]))


def rot_dist(Ra, Rb):
    return np.abs(np.asarray(Ra) - np.asarray(Rb)).max(axis=(-1, -2))


def axang2R(axis, ang):
    axis = np.asarray(axis, float)
    ang = np.asarray(ang, float)
    q = np.concatenate([np.cos(ang / 2)[..., None], np.sin(ang / 2)[..., None] * axis], axis=-1)
    return q2R(q)


def q2ax(q):
    q = qpos(nrm(q))
    v = q[..., 1:]
    n = np.linalg.norm(v, axis=-1, keepdims=True)
    ax = np.where(n > 0, v / np.where(n > 0, n, 1), np.array([0.0, 0, 1]))
    return np.concatenate([ax, 2 * np.arctan2(n, q[..., :1])], axis=-1)


def _f_ho(w):
    w = np.asarray(w, float)
    small = w < 1e-2
    ser = w ** 3 / 6 * (1 - w * w / 20 * (1 - w * w / 42))
    return np.where(small, ser, w - np.sin(w))


def ang2h(w):
    return (0.75 * _f_ho(w)) ** (1.0 / 3.0)


def h2ang(h):
    """inverse of ang2h by bisection on [0, pi] (float64)"""
    h = np.asarray(h, float)
    lo = np.zeros_like(h)
    hi = np.full_like(h, PI)
    for _ in range(70):
        mid = 0.5 * (lo + hi)
        up = ang2h(mid) < h
        lo = np.where(up, mid, lo)
        hi = np.where(up, hi, mid)
    return 0.5 * (lo + hi)


def q2ho(q):
    a = q2ax(q)
    return a[..., :3] * ang2h(a[..., 3:])


def ho2q(ho):
    ho = np.asarray(ho, float)
    h = np.linalg.norm(ho, axis=-1, keepdims=True)
    w = h2ang(np.minimum(h, HO_MAX))
    ax = np.where(h > 0, ho / np.where(h > 0, h, 1), np.array([0.0, 0, 1]))
    return np.concatenate([np.cos(w / 2), np.sin(w / 2) * ax], axis=-1)


# --- cubochoric <-> homochoric: Rosca, Morawiec, De Graef (2014), pyramid form
_R1 = (3 * PI / 4) ** (1 / 3)
_A = PI ** (5 / 6) / 6 ** (1 / 6)
_SC = _A / PI ** (2 / 3)
_PREK = _R1 * 2 ** 0.25 / (_A / 2)


def cu2ho_one(c):
    c = np.asarray(c, float)
    if not np.any(c):
        return np.zeros(3)
    k = int(np.argmax(np.abs(c)))
    perm = [(k + 1) % 3, (k + 2) % 3, k]
    x, y, z = c[perm] * _SC
    if abs(x) <= 1e-300 and abs(y) <= 1e-300:
        out = np.array([0.0, 0.0, math.sqrt(6 / PI) * z])
    else:
        big, sml, swap = (x, y, False) if abs(y) <= abs(x) else (y, x, True)
        q = PI / 12 * sml / big
        cc, ss = math.cos(q), math.sin(q)
        q2 = _PREK * big / math.sqrt(math.sqrt(2) - cc)
        t1, t2 = (math.sqrt(2) * cc - 1) * q2, math.sqrt(2) * ss * q2
        if swap:
            t1, t2 = t2, t1
        c2 = t1 * t1 + t2 * t2
        s = PI * c2 / (24 * z * z)
        f = math.sqrt(max(0.0, 1 - s))
        out = np.array([t1 * f, t2 * f, math.sqrt(6 / PI) * z * (1 - PI * c2 / (24 * z * z))])
        out[2] = math.sqrt(6 / PI) * z - math.sqrt(PI / 24) * c2 / z
    res = np.zeros(3)
    res[perm] = out
    return res


def ho2cu_one(h):
    h = np.asarray(h, float)
    rs = np.linalg.norm(h)
    if rs == 0:
        return np.zeros(3)
    k = int(np.argmax(np.abs(h)))
    perm = [(k + 1) % 3, (k + 2) % 3, k]
    x, y, z = h[perm]
    f = math.sqrt(2 * rs / (rs + abs(z)))
    x2, y2 = x * f, y * f
    sg = 1.0 if z >= 0 else -1.0
    z1 = sg * rs / math.sqrt(6 / PI)
    if x2 == 0 and y2 == 0:
        t1 = t2 = 0.0
    else:
        big, sml, swap = (x2, y2, False) if abs(y2) <= abs(x2) else (y2, x2, True)
        qxy = big * big + sml * sml
        q2xy = qxy + big * big
        sq = math.sqrt(q2xy)
        den = q2xy - abs(big) * sq
        fac = (_A / 2 / _R1) * math.sqrt(q2xy * qxy / den) / math.sqrt(2)
        tt = (sml * sml + abs(big) * sq) / math.sqrt(2) / qxy
        ac = math.acos(max(-1.0, min(1.0, tt)))
        bb = math.copysign(fac, big)
        ssml = math.copysign(fac * 12 / PI * ac, sml) if sml != 0 else 0.0
        t1, t2 = (bb, ssml) if not swap else (ssml, bb)
    out = np.zeros(3)
    out[perm] = np.array([t1, t2, z1]) / _SC
    return out


def cu2ho(c):
    c = np.asarray(c, float)
    return np.array([cu2ho_one(v) for v in c.reshape(-1, 3)]).reshape(c.shape)


def ho2cu(h):
    h = np.asarray(h, float)
    return np.array([ho2cu_one(v) for v in h.reshape(-1, 3)]).reshape(h.shape)


def q2ro(q):
    a = q2ax(q)
    t = np.where(a[..., 3:] >= PI - 1e-15, np.inf, np.tan(np.minimum(a[..., 3:], PI - 1e-15) / 2))
    return np.concatenate([a[..., :3], t], axis=-1)


def bu2q(b):
    b = np.asarray(b, float)
    s = 0.5 * (b[..., 0] + b[..., 2])
    d = 0.5 * (b[..., 0] - b[..., 2])
    c_, s_ = np.cos(b[..., 1] / 2), np.sin(b[..., 1] / 2)
    return np.stack([c_ * np.cos(s), -s_ * np.cos(d), -s_ * np.sin(d), -c_ * np.sin(s)], axis=-1)


def q2bu(q):
    """any Bunge triplet with the right rotation"""
    q = nrm(q)
    w, x, y, z = np.moveaxis(q, -1, 0)
    Phi = 2 * np.arctan2(np.hypot(x, y), np.hypot(w, z))
    s = np.arctan2(-z, w)
    d = np.arctan2(-y, -x)
    nochi = np.hypot(x, y) < 1e-14
    pichi = np.hypot(w, z) < 1e-14
    p1 = np.where(nochi, 2 * s, np.where(pichi, 2 * d, s + d))
    p2 = np.where(nochi | pichi, 0.0, s - d)
    return np.stack([np.mod(p1, 2 * PI), Phi, np.mod(p2, 2 * PI)], axis=-1)


# decoders: representation -> rotation matrix
def dec(rep, v):
    v = np.asarray(v, float)
    if rep == "qu":
        return q2R(v)
    if rep == "om":
        return v
    if rep == "ax":
        return axang2R(v[..., :3], v[..., 3])
    if rep == "ro":
        with np.errstate(invalid="ignore"):
            return axang2R(v[..., :3], 2 * np.arctan(v[..., 3]))
    if rep == "ho":
        return q2R(ho2q(v))
    if rep == "cu":
        return q2R(ho2q(cu2ho(v)))
    if rep == "bu":
        return q2R(bu2q(v))
    if rep == "zh":
        a, b = v[..., :3], v[..., 3:]
        b1 = nrm(a)
        b2 = nrm(b - (b1 * b).sum(-1, keepdims=True) * b1)
        return np.stack([b1, b2, np.cross(b1, b2)], axis=-2)
    raise KeyError(rep)


def enc(rep, q):
    q = qpos(nrm(q))
    if rep == "qu":
        return q
    if rep == "om":
        return q2R(q)
    if rep == "ax":
        return q2ax(q)
    if rep == "ro":
        return q2ro(q)
    if rep == "ho":
        return q2ho(q)
    if rep == "cu":
        return ho2cu(q2ho(q))
    if rep == "bu":
        return q2bu(q)
    if rep == "zh":
        return q2R(q)[..., :2, :].reshape(q.shape[:-1] + (6,))
    raise KeyError(rep)
