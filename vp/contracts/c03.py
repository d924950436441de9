"""C03: ECEF position -> n-vector and depth."""
from ..contract import *
from .. import spec as sp
from .c02 import on_ellipsoid, rot, AX


def inputs(c):
    return dict(p=Vec3(scale=4.0, edges=()), a=SemiAxis(), f=Flat(0.5))


def region(m, e, a, f):
    """outside the singular neighbourhood of the centre (radius about e^2 a, 43 km on Earth)"""
    E = f * (2 - f)
    q = (1 - E) * e[0] * e[0] / (a * a)
    p = (e[1] * e[1] + e[2] * e[2]) / (a * a)
    return q, p, E


def requires(m, s, cfg):
    q, p, E = region(m, sp.to_e(cfg['axes'], s.p), s.a, s.f)
    return [p + q > E * E]


def call(nv, x, cfg):
    return nv.p_EB_E2n_EB_E(x.p, x.a, x.f, rot(nv, cfg))


def tolerance(m, s, z):
    if m.symbolic:
        return 0
    return (3e-14 if float(s.f) < 0.02 else 1e-10) * (1 + m.abs(z) / s.a)


HEIGHTS = [0.0, 100.0, -100.0, 8848.0, -11000.0, 4e5, 3.6e7, 1e9, -1e6, -3e6, 0.01]


def draw(cfg, rng, n):
    """positions around an ellipsoid, including poles, equator and far away"""
    f = rng.choice([1 / 298.257223563, 1 / 298.257223563, 0.0, 0.01, 1 / 294.98, rng.uniform(0, 0.3)])
    a = rng.choice(SEMI)
    u = Unit()
    cols = []
    for _ in range(n):
        e = u.draw(rng)
        g = 1 - f
        w = math.sqrt(e[1] ** 2 + e[2] ** 2 + (g * e[0]) ** 2)
        h = rng.choice(HEIGHTS) / 6378137.0 * a if rng.random() < 0.6 else a * rng.uniform(-0.4, 3)
        cols.append([(a * g * g / w + h) * e[0], (a / w + h) * e[1], (a / w + h) * e[2]])
    p = np.array(cols).T
    R = np.array(sp.axes_of(cfg['axes']), dtype=float)
    return dict(p=R.T.dot(p), a=np.array(a), f=np.array(f))


def keep(m, s, cfg):
    """runtime companion: stay away from the singular region where rounding is amplified"""
    q, p, E = region(m, sp.to_e(cfg['axes'], s.p), s.a, s.f)
    return all(float(v) > float(E * E) + 0.1 for v in np.ravel(p + q))


def ensures(m, s, out, cfg):
    n, z = out
    yield Shape('shape of n_EB_E', n, (3, 'N'))
    yield Shape('shape of depth', z, ('N',))
    e = sp.to_e(cfg['axes'], n)
    tol = tolerance(m, s, z)
    yield Eq('unit length', sp.dot(e, e), 1 + 0 * e[0], 4e-15)
    for c in on_ellipsoid(m, sp.to_e(cfg['axes'], s.p), e, z, s.a, s.f, tol):
        yield c

def cuts(m, s, cfg):
    """The steps of Vermeille's solution of q/k^2 + p/(k+E)^2 = 1, each proved and then abstracted."""
    e = sp.to_e(cfg['axes'], s.p)
    a, f = s.a, s.f
    E = f * (2 - f)
    yield Cut('E', E, [Le('0 <= E', 0 * E, E), Le('E < 1', E, 0 * E + 1, strict=True)], unfold=True)
    q = (1 - E) * (e[0] * e[0]) / (a * a)
    yield Cut('q', q, [Le('0 <= q', 0 * q, q)], unfold=True)
    p = (e[1] * e[1] + e[2] * e[2]) / (a * a)
    yield Cut('p', p, [Le('0 <= p', 0 * p, p)], unfold=True)
    r = (p + q - E * E) / 6
    yield Cut('r', r, [Le('0 < r', 0 * r, r, strict=True)], unfold=True)
    S = E * E * p * q / (4 * r * r * r)
    t = m.root(1 + S + m.sqrt(S * (2 + S)), 3)
    u = r * (1 + t + 1 / t)
    yield Cut('u', u, [Le('0 < u', 0 * u, u, strict=True)], rule=(3, 3 * r * u * u + E * E * p * q / 2))
    v = m.sqrt(u * u + E * E * q)
    w = E * (u + v - q) / (2 * v)
    yield Cut('v', v, [Le('0 < v', 0 * v, v, strict=True)], rule=(2, u * u + E * E * q))
    yield Cut('w', w, unfold=True)
    k = m.sqrt(u + v + w * w) - w
    yield Cut('k', k, [Le('0 < k', 0 * k, k, strict=True)],
              rule=(4, -2 * E * k * k * k - (E * E - p - q) * k * k + 2 * E * q * k + E * E * q))


# ------------------------------------------------------------------- n, depth -> p -> n, depth
def trip_inputs(c):
    # depth = a (1 - E - K)/w: K > 0 is depth < a (1-f)^2/w, i.e. above the evolute
    return dict(n=Unit(), K=Real(('N',), 0, None, open_lo=True, glo=0.3, ghi=3.0, edges=[0.9933, 1.0, 0.99, 5.0, 0.5]),
                a=SemiAxis(), f=Flat(0.5))


def depth_of(m, s, e):
    g = 1 - s.f
    w = m.sqrt(e[1] * e[1] + e[2] * e[2] + g * g * e[0] * e[0])
    return a_over(s.a, w) * (1 - s.f * (2 - s.f) - s.K)


def a_over(a, w):
    return a / w


def trip_requires(m, s, cfg):
    e = sp.to_e(cfg['axes'], s.n)
    p = sp.to_e(cfg['axes'], sp.n2p_unit(m, cfg['axes'], s.n, depth_of(m, s, e), s.a, s.f))
    q, p, E = region(m, p, s.a, s.f)
    return [p + q > E * E]


def trip_call(nv, x, cfg):
    if hasattr(x.n, 'tg'):
        from ..verify import StubContext
        m = StubContext.current.m
        z = depth_of(m, x, sp.to_e(cfg['axes'], x.n))
    else:
        m = NumMath(1)
        z = np.asarray(depth_of(m, x, sp.to_e(cfg['axes'], x.n)), dtype=float)
    p = nv.n_EB_E2p_EB_E(x.n, z, x.a, x.f, rot(nv, cfg))
    n, z2 = nv.p_EB_E2n_EB_E(p, x.a, x.f, rot(nv, cfg))
    return n, z2, z


def trip_cuts(m, s, cfg):
    e = sp.to_e(cfg['axes'], s.n)
    P = sp.n2p_unit(m, cfg['axes'], s.n, depth_of(m, s, e), s.a, s.f)
    s2 = Inputs(p=m.vec(P), a=s.a, f=s.f)
    k = None
    for c in cuts(m, s2, cfg):
        if c.name == 'k':
            k = c.term
        yield c
    E = s.f * (2 - s.f)
    K = s.K
    w2 = e[1] * e[1] + e[2] * e[2] + (1 - E) * e[0] * e[0]
    al = (1 - E) * e[0] * e[0] / w2
    be = (e[1] * e[1] + e[2] * e[2]) / w2
    B = al * (K + k) * (k + E) * (k + E) + be * (K + k + 2 * E) * k * k
    yield Cut('B', B, [Le('0 < B', 0 * B, B, strict=True)], unfold=True)
    yield Eq('(K - k) B = 0', (K - k) * B, 0 * B)
    yield Rule('k = K (the positive root is unique)', 'k', K)


def trip_keep(m, s, cfg):
    return all(float(k) > 0.3 for k in np.ravel(s.K)) and float(s.f) < 0.3


def trip_ensures(m, s, out, cfg):
    n, z, z0 = out
    f = float(s.f) if not m.symbolic else 0
    tol = 1e-12 if f < 0.02 else 1e-9
    yield Shape('shape of n_EB_E', n, (3, 'N'))
    yield Shape('shape of depth', z, ('N',))
    yield Eq('n, depth -> p -> n', n, s.n, tol)
    yield Eq('n, depth -> p -> depth', z / s.a, z0 / s.a, tol * (1 + m.abs(z0) / s.a) if not m.symbolic else 0)


CF = [dict(N=N, axes=ax) for ax in AX for N in ('N', 1, 3)]
CONTRACTS = [
    Contract('p_EB_E2n_EB_E', ['core.p_EB_E2n_EB_E', 'core._equation23', 'core._compute_k',
                               'core._eccentricity2', 'util.nthroot', 'util.unit'], inputs, call,
             ensures, CF, requires, cuts=cuts, draw=draw, keep=keep, trials=2),
    Contract('p_EB_E2n_EB_E(n_EB_E2p_EB_E(n, z))', ['core.p_EB_E2n_EB_E', 'core.n_EB_E2p_EB_E'], trip_inputs,
             trip_call, trip_ensures, [dict(c, **({} if (c['N'], c['axes']) == ('N', 'e') else dict(thorough=True))) for c in CF], trip_requires, cuts=trip_cuts, stubs=['n_EB_E2p_EB_E'], keep=trip_keep),
]
