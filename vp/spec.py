"""Specification functions, written on either back end (m = SymMath or NumMath).

They are the mathematical definitions the contracts refer to, written independently of the code under
verification.  Vectors are lists of three arrays, matrices nested lists.
"""
import numpy as np
import mpmath
from . import term as tm
from . import sym

AXES = {'e': [[0, 0, 1], [0, 1, 0], [-1, 0, 0]], 'E': [[1, 0, 0], [0, 1, 0], [0, 0, 1]]}
mpf = mpmath.mpf


def axes_of(axes):
    return AXES['e' if axes is None else axes]


def comp(v, n=3):
    return [v[i] for i in range(n)]


def matvec(M, v):
    out = []
    for row in M:
        acc = None
        for c, x in zip(row, v):
            if isinstance(c, (int, float)):
                if c == 0:
                    continue
                t = x if c == 1 else -x if c == -1 else x * c
            else:
                t = c * x
            acc = t if acc is None else acc + t
        out.append(acc if acc is not None else v[0] * 0)
    return out


def transpose(M):
    return [list(r) for r in zip(*M)]


def matmul(A, B):
    cols = [matvec(A, [B[k][j] for k in range(3)]) for j in range(3)]
    return transpose(cols)


def to_e(axes, v):
    return matvec(axes_of(axes) if not isinstance(axes, list) else axes, comp(v))


def from_e(axes, v):
    return matvec(transpose(axes_of(axes) if not isinstance(axes, list) else axes), comp(v))


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def norm(m, u):
    return m.sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2])


def det(M):
    return dot(M[0], cross(M[1], M[2]))


# ------------------------------------------------------------------ conversions
def lat_lon2n(m, axes, lat, lon):
    return from_e(axes, [m.sin(lat), m.sin(lon) * m.cos(lat), -m.cos(lon) * m.cos(lat)])


def n2lat_lon(m, axes, n):
    e = to_e(axes, n)
    return m.atan2(e[0], m.sqrt(e[1] * e[1] + e[2] * e[2])), m.atan2(e[1], -e[2])


def n2p(m, axes, n, depth, a, f):
    """surface point with outward normal n, moved depth along -n (e frame: x along the Earth axis)"""
    e = to_e(axes, n)
    L = norm(m, e)
    e = [x / L for x in e]
    g = 1 - f
    w = m.sqrt(e[1] * e[1] + e[2] * e[2] + g * g * e[0] * e[0])
    s = [a * g * g * e[0] / w, a * e[1] / w, a * e[2] / w]
    return from_e(axes, [s[i] - depth * e[i] for i in range(3)])


def n2p_unit(m, axes, n, depth, a, f):
    e = to_e(axes, n)
    g = 1 - f
    w = m.sqrt(e[1] * e[1] + e[2] * e[2] + g * g * e[0] * e[0])
    s = [a * g * g * e[0] / w, a * e[1] / w, a * e[2] / w]
    return from_e(axes, [s[i] - depth * e[i] for i in range(3)])


def invertible(m, axes, n, depth, a, f):
    """the domain on which p2n inverts n2p (contract C03): above the evolute and outside the singular centre"""
    e = to_e(axes, n)
    g = 1 - f
    w = m.sqrt(e[1] * e[1] + e[2] * e[2] + g * g * e[0] * e[0])
    return [depth < a * g * g / w, outside_core(m, axes, n2p_unit(m, axes, n, depth, a, f), a, f)]


def outside_core(m, axes, p, a, f):
    x = to_e(axes, p)
    E = f * (2 - f)
    return (1 - E) * x[0] * x[0] / (a * a) + (x[1] * x[1] + x[2] * x[2]) / (a * a) > E * E


def p2n_num(x, y, z, a, f):
    """inverse of n2p in the e frame by Newton iteration on the latitude (mpmath): n (3), depth"""
    p = mpmath.sqrt(y * y + z * z)
    g = 1 - f
    b = a * g
    if f == 0:
        r = mpmath.sqrt(x * x + p * p)
        if r == 0:
            return [mpmath.nan] * 4
        return [x / r, y / r, z / r, a - r]
    e2 = f * (2 - f)
    # solve for the parametric latitude (robust: bisection on the Lagrange multiplier form)
    X, P = abs(x), p
    if X == 0 and P == 0:
        return [mpmath.nan] * 4
    if X == 0:
        return [mpf(0), y / p, z / p, a - P]
    # point s on the ellipse: s = (b^2 X/(t+b^2), a^2 P/(t+a^2)), (b X/(t+b^2))^2+(a P/(t+a^2))^2 = 1, t > -b^2
    def F(t):
        return (b * X / (t + b * b)) ** 2 + (a * P / (t + a * a)) ** 2 - 1
    lo = -b * b + b * X * mpf('0.999999999')
    hi = -b * b + mpmath.sqrt(b * b * X * X + a * a * P * P)
    if lo >= hi:
        lo = hi - abs(hi) * mpf(10) ** -6 - mpf(10) ** -6
        while F(lo) < 0 and lo > -b * b:
            lo = -b * b + (lo + b * b) / 2
    # Newton on a convex decreasing function from the left: monotone convergence
    t = lo
    for _ in range(200):
        d = -2 * (b * X) ** 2 / (t + b * b) ** 3 - 2 * (a * P) ** 2 / (t + a * a) ** 3
        step = F(t) / d
        t2 = t - step
        if abs(t2 - t) <= abs(t2) * mpf(10) ** (-mpmath.mp.dps + 3) + mpf(10) ** (-mpmath.mp.dps):
            t = t2
            break
        t = t2
    sx, sp = b * b * X / (t + b * b), a * a * P / (t + a * a)
    nx, np_ = sx / (b * b), sp / (a * a)
    L = mpmath.sqrt(nx * nx + np_ * np_)
    nx, np_ = nx / L, np_ / L
    h = (X - sx) * nx + (P - sp) * np_
    if x < 0:
        nx = -nx
    if p == 0:
        return [nx, mpf(0), mpf(0), -h]
    return [nx, np_ * y / p, np_ * z / p, -h]


for _i in range(4):
    def _mk(i):
        def f(x, y, z, a, f):
            return p2n_num(x, y, z, a, f)[i]
        return f
    tm.UF_IMPL['uf:p2n_%d' % _i] = _mk(_i)


def p2n(m, axes, p, a, f):
    """abstract inverse of n2p (contract C03 characterises it): n (3), depth"""
    e = to_e(axes, p)
    r = [m.uf('p2n_%d' % i, e[0], e[1], e[2], a, f) for i in range(4)]
    return from_e(axes, r[:3]), r[3]


# ------------------------------------------------------------------ rotations
def Rx(m, t):
    c, s = m.cos(t), m.sin(t)
    return [[1, 0, 0], [0, c, -s], [0, s, c]]


def Ry(m, t):
    c, s = m.cos(t), m.sin(t)
    return [[c, 0, s], [0, 1, 0], [-s, 0, c]]


def Rz(m, t):
    c, s = m.cos(t), m.sin(t)
    return [[c, -s, 0], [s, c, 0], [0, 0, 1]]


def _mv(M, v):
    out = []
    for row in M:
        acc = None
        for c, x in zip(row, v):
            if isinstance(c, int) and c == 0 or isinstance(x, int) and x == 0:
                continue
            t = x if isinstance(c, int) and c == 1 else c if isinstance(x, int) and x == 1 else c * x
            acc = t if acc is None else acc + t
        out.append(0 if acc is None else acc)
    return out


def _mm(A, B):
    return transpose([_mv(A, [B[k][j] for k in range(3)]) for j in range(3)])


def xyz(m, x, y, z):
    return _mm(_mm(Rx(m, x), Ry(m, y)), Rz(m, z))


def zyx(m, z, y, x):
    return _mm(_mm(Rz(m, z), Ry(m, y)), Rx(m, x))


def R_EN(m, axes, n):
    """columns north, east, down of the unit vector n (E components); east = (0,1,0) at the poles"""
    e = to_e(axes, n)
    h = m.sqrt(e[1] * e[1] + e[2] * e[2])
    pole = h <= 0 if not m.symbolic else (h * h <= 0)
    hs = m.where(pole, 1 + 0 * h, h)
    zero = 0 * h
    east = [zero, m.where(pole, zero + 1, -e[2] / hs), m.where(pole, zero, e[1] / hs)]
    down = [-x for x in e]
    north = cross(east, down)
    cols = [from_e(axes, c) for c in (north, east, down)]
    return transpose(cols)


def R_EL(m, axes, n, wa):
    return matmul(R_EN(m, axes, n), Rz_full(m, wa))


def Rz_full(m, t):
    c, s = m.cos(t), m.sin(t)
    o, i = 0 * c, 0 * c + 1
    return [[c, -s, o], [s, c, o], [o, o, i]]


def apply(R, v):
    """R v with entries of any broadcastable shape"""
    return [R[i][0] * v[0] + R[i][1] * v[1] + R[i][2] * v[2] for i in range(3)]


def apply_T(R, v):
    return [R[0][i] * v[0] + R[1][i] * v[1] + R[2][i] * v[2] for i in range(3)]


# ------------------------------------------------------------------ great circles
def gc_angle(m, u, v):
    return m.atan2(norm(m, cross(u, v)), dot(u, v))


def base_angle(m, x):
    """the representative of x modulo 2 pi in [-pi, pi)"""
    return m.mod(x + m.pi, 2 * m.pi) - m.pi
