"""C12: on-great-circle and on-path tests."""
from fractions import Fraction
from ..contract import *
from .. import spec as sp
from . import c11
from .c02 import DEPTHS


def inputs(c):
    one = c.get('one', ())
    d = dict((k, Unit(1 if k in one else 'N')) for k in ('A', 'B', 'n'))
    if not c.get('default'):
        d['r'] = Radius(('N',) if c.get('rad') == 'cols' else ())
        d['t'] = Real((), 0, None, glo=0.01, ghi=9.0, edges=[0.0, 1e-8, 1.0, 10.0, 1e5])
    return d


def par(m, s, cfg):
    return (m.c(6371009.0), m.c(1e-8)) if cfg.get('default') else (s.r, s.t)


def distance(m, s, r):
    """radius times the angle between the position and the plane"""
    c = sp.cross(s.A, s.B)
    return m.abs(m.asin(sp.dot(c, s.n) / sp.norm(m, c))) * r


def near(m, s, d, t, r):
    c = sp.cross(s.A, s.B)
    return None if m.symbolic else m.abs(d - t) <= r * (2e-15 * (1 + 1 / sp.norm(m, c))) ** 0.5


def keep(m, s, cfg):
    c = sp.cross(s.A, s.B)
    return all(float(v) > 1e-8 for v in np.ravel(sp.dot(c, c)))


def gc_call(nv, x, cfg):
    if cfg.get('default'):
        return nv.on_great_circle((x.A, x.B), x.n)
    return nv.on_great_circle((x.A, x.B), x.n, x.r, atol=x.t)


def gc(m, s, res, cfg):
    r, t = par(m, s, cfg)
    yield Shape('shape', res, ('N',))
    d = distance(m, s, r)
    yield Iff('on the great circle iff the cross-track distance is within the tolerance', res, d <= t,
              near(m, s, d, t, r))


def path_call(nv, x, cfg):
    if cfg.get('default'):
        return nv.on_great_circle_path((x.A, x.B), x.n)
    return nv.on_great_circle_path((x.A, x.B), x.n, x.r, atol=x.t)


def path_cuts(m, s, cfg):
    for c in c11.cuts(m, s, cfg):
        yield c
    a, b, c = sp.dot(s.n, s.A), sp.dot(s.n, s.B), sp.dot(s.A, s.B)
    yield Le('A . B < 1', c, 1 + 0 * c, strict=True)
    for k, t in zip('abc', (a, b, c)):
        yield Cut(k, t, unfold=True)
    for k, u, v, t in (('S', s.B, s.A, c), ('dA', s.n, s.A, a), ('dB', s.n, s.B, b)):
        d = sp.norm(m, [u[i] - v[i] for i in range(3)])
        yield Cut(k, d, [Le('0 < S', 0 * d, d, strict=True)] if k == 'S' else [], rule=(2, 2 - 2 * t))
    yield Cut('h', sum(s.n[i] * (s.A[i] + s.B[i]) for i in range(3)), rule=(1, a + b))


def path(m, s, res, cfg):
    """any position"""
    r, t = par(m, s, cfg)
    yield Shape('shape', res, ('N',))
    d = distance(m, s, r)
    nr = near(m, s, d, t, r)
    no = m.not_(m.arr(res))
    yes = m.true()
    a, b, c = sp.dot(s.n, s.A), sp.dot(s.n, s.B), sp.dot(s.A, s.B)
    e = 1e-14

    def sure(x):
        return None if m.symbolic else x
    yield Implies(m.not_(d <= t), Iff('off the great circle by more than the tolerance is rejected', no, yes),
                  sure(None if m.symbolic else m.not_(nr)))
    yield Implies(a + b < 0, Iff('on the far side of the Earth is rejected', no, yes), sure(a + b < -e))
    # at a quarter turn from the path at most: being nearer in chord is being nearer in angle
    yield Implies(a < c, Iff('farther from the first end than the other is rejected', no, yes), sure(a < c - e))
    yield Implies(b < c, Iff('farther from the last end than the other is rejected', no, yes), sure(b < c - e))


# ------------------------------------------------------------------------ positions of the plane of the great circle
def in_inputs(c):
    one = c.get('one', ())
    w = dict(lo=None, hi=None, glo=-1.5, ghi=1.5, edges=[0.0, 1.0, -1.0, 0.5, 1e-3, -1e-3, 30.0])
    return dict(A=Unit(1 if 'A' in one else 'N'), B=Unit(1 if 'B' in one else 'N'), p=Real(('N',), **w),
                q=Real(('N',), **w), r=Radius(), t=Real((), 0, None, glo=0.01, ghi=9.0, edges=[1.0, 10.0]))


def weight2(s):
    return s.p * s.p + s.q * s.q + 2 * s.p * s.q * sp.dot(s.A, s.B)


def in_requires(m, s, cfg):
    c = sp.cross(s.A, s.B)
    return [sp.dot(c, c) > 0, weight2(s) > 0]


def in_keep(m, s, cfg):
    ok = keep(m, s, cfg) and all(float(v) > 1e-2 for v in np.ravel(weight2(s)))
    k = [abs(float(x) / float(y)) for x, y in zip(np.ravel(s.p) + 0 * np.ravel(s.q), np.ravel(s.r) + 0 * np.ravel(s.q))]
    return ok and float(s.t / s.r) > 1e-9


def in_call(nv, x, cfg):
    n = x.p * x.A + x.q * x.B
    n = n / ((n * n).sum(axis=0)) ** 0.5
    return nv.on_great_circle_path((x.A, x.B), n, x.r, x.t)


def in_cuts(m, s, cfg):
    """abbreviations; with c = A . B: |A x B|^2 = 1 - c^2, and n = (p A + q B) / W"""
    cr = sp.cross(s.A, s.B)
    c = sp.dot(s.A, s.B)
    yield Le('|A . B| < 1', c * c, 1 + 0 * c, strict=True)
    W2 = weight2(s)
    v = [s.p * s.A[i] + s.q * s.B[i] for i in range(3)]
    yield Le('0 < |p A + q B|^2', 0 * c, sp.dot(v, v), strict=True)
    yield Cut('c', c, unfold=True)
    yield Le('A . B < 1', c, 1 + 0 * c, strict=True)
    yield Le('A . B > -1', -1 + 0 * c, c, strict=True)
    W = sp.norm(m, v)
    yield Cut('W', W, [Le('0 < W', 0 * W, W, strict=True)], rule=(2, W2))
    n = [x / W for x in v]
    S = sp.norm(m, [s.B[i] - s.A[i] for i in range(3)])
    yield Cut('S', S, [Le('0 < S', 0 * S, S, strict=True)], rule=(2, 2 - 2 * c))
    for k, e, a in (('dA', s.A, (s.p + s.q * c) / W), ('dB', s.B, (s.q + s.p * c) / W)):
        d = sp.norm(m, [n[i] - e[i] for i in range(3)])
        yield Cut(k, d, rule=(2, 2 - 2 * a))
    h = sum(n[i] * (s.A[i] + s.B[i]) for i in range(3))
    yield Cut('h', h, rule=(1, (s.p + s.q) * (1 + c) / W))


def inside(m, s, res, cfg):
    yield Shape('shape', res, ('N',))
    small = 1e-9
    yield Iff('on the path iff between the end points on the shorter arc', res, m.and_(s.p >= 0, s.q >= 0),
              None if m.symbolic else m.or_(m.abs(s.p) < small, m.abs(s.q) < small))


def end_call(nv, x, cfg):
    return [nv.on_great_circle_path((x.A, x.B), e, x.r, x.t) for e in (x.A, x.B)]


def ends(m, s, out, cfg):
    yield Iff('first end point is accepted', out[0], m.true())
    yield Iff('last end point is accepted', out[1], m.true())


# ------------------------------------------------------------------------------------------------------ GeoPath
def oo_inputs(c):
    d = dict((k, Unit()) for k in ('A', 'B', 'n'))
    for k in ('A', 'B', 'n'):
        d['z' + k] = Real(('N',) if c['z'] == 'cols' else (), edges=DEPTHS)
    d['a'], d['f'] = SemiAxis(), Flat(0.5)
    if not c.get('default'):
        d['t'] = Real((), 0, None, glo=0.01, ghi=9.0, edges=[1e-8, 1.0, 10.0])
        d['q'] = Real((), 0, None, glo=0.0, ghi=1.0, edges=[1e-6, 0.0])
    return d


def objects(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])
    p = [nv.Nvector(x[k], x['z' + k], fr) for k in ('A', 'B', 'n')]
    return nv.GeoPath(p[0], p[1]), p[2]


def mean_length(p):
    pA, pB = p.ecef_vectors()
    return (pA.length + pB.length) / 2


def oo_gc_call(nv, x, cfg):
    p, c = objects(nv, x, cfg)
    k = {} if cfg.get('default') else dict(atol=x.t)
    return p.on_great_circle(c, **k), p.cross_track_distance(c)


def oo_gc(m, s, out, cfg):
    res, d = m.cols(out[0], 0), m.cols(out[1], 0)
    t = m.c(1e-8) if cfg.get('default') else s.t
    yield Shape('shape', res, ('N',))
    yield Iff('on the great circle iff the cross-track distance is within the tolerance', res, m.abs(d) <= t,
              None if m.symbolic else m.abs(m.abs(d) - t) <= 1e-12 * t)


def oo_path_call(nv, x, cfg):
    p, c = objects(nv, x, cfg)
    k = {} if cfg.get('default') else dict(rtol=x.q, atol=x.t)
    if cfg['method']:
        k['method'] = cfg['method']
    r = mean_length(p)
    return p.on_path(c, **k), r, nv.on_great_circle_path((x.A, x.B), x.n, r, 1e-8 if cfg.get('default') else x.t)


def close(m, x, y, q, t):
    return m.abs(x - y) <= m.maximum(t, q * m.maximum(m.abs(x), m.abs(y)))


def oo_path(m, s, out, cfg):
    res, r, on = m.cols(out[0], 0), m.cols(out[1], 0), m.cols(out[2], 0)
    q, t = (m.c(1e-6), m.c(1e-8)) if cfg.get('default') else (s.q, s.t)
    yield Shape('shape', res, ('N',))
    R = c11.mean_radius(m, s, cfg)
    yield Eq('radius is the mean distance of the end points from the centre', r / s.a, R / s.a, 3e-15 * (
        1 if m.symbolic else 1 + R / s.a))
    z = (s.zA + s.zB) / 2
    d = m.abs(z - s.zn)
    T = m.maximum(t, q * m.maximum(m.abs(z), m.abs(s.zn)))
    yield Iff('on the path iff on the spherical path, at its mean depth', res,
              m.and_(on, close(m, s.zn, z, q, t)), None if m.symbolic else m.abs(d - T) <= 1e-12 * (T + m.abs(z)))


# ------------------------------------------------------------------------------------- ellipsoidal path
def ell_inputs(c):
    sh = ('N',) if c['N'] else ()
    d = {}
    for k in 'ABC':
        d['lat' + k] = Angle(sh, Fraction(-1, 2), Fraction(1, 2))
        d['lon' + k] = Angle(sh)
        d['z' + k] = Real(sh, edges=DEPTHS)
    d['a'], d['f'] = Real((), 0, None, open_lo=True, glo=5.0, ghi=9.0, edges=SEMI), Flat(0.01)
    if not c.get('default'):
        d['t'] = Real((), 0, None, glo=1e-9, ghi=0.1, edges=[1e-8, 1e-3])
        d['q'] = Real((), 0, None, glo=0.0, ghi=0.1, edges=[1e-6, 0.0])
    return d


def ell_requires(m, s, cfg):
    return [s['z' + k] < s.a for k in 'ABC']


def ell_call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])
    A, B, C = [nv.GeoPoint(x['lat' + k], x['lon' + k], x['z' + k], fr) for k in 'ABC']
    k = {} if cfg.get('default') else dict(rtol=x.q, atol=x.t)
    ab, ac = A.distance_and_azimuth(B), A.distance_and_azimuth(C)
    return nv.GeoPath(A, B).on_path(C, cfg['method'], **k), ab[0], ab[1], ac[0], ac[1]


def ell(m, s, out, cfg):
    res, sab, aab, sac, aac = [m.cols(o, 0) for o in out]
    q, t = (m.c(1e-6), m.c(1e-8)) if cfg.get('default') else (s.q, s.t)
    z, zc = m.cols((s.zA + s.zB) / 2, 0), m.cols(s.zC, 0)
    yes = m.true()
    d = aac - aab
    d = m.abs(m.mod(d + m.pi, 2 * m.pi) - m.pi)          # angle between the two directions
    e = 1e-12
    off = m.abs(z - zc) > m.maximum(t, q * m.maximum(m.abs(z), m.abs(zc)))
    turn = m.and_(d > m.maximum(t, q * 2 * m.pi), sac > m.maximum(t, q * 0))

    def sure(c):
        return None if m.symbolic else c
    no = m.not_(res)
    g = None if m.symbolic else m.abs(m.abs(z - zc) - m.maximum(t, q * m.maximum(m.abs(z), m.abs(zc)))) > e * (
        1 + m.abs(z))
    yield Implies(off, Iff('at another depth than the path is rejected', no, yes), sure(g))
    yield Implies(sac > m.maximum(t, sab), Iff('farther than the last end is rejected', no, yes),
                  sure(sac > m.maximum(t, sab) * (1 + e)))
    yield Implies(turn, Iff('in another direction than the last end is rejected', no, yes),
                  sure(m.and_(d > m.maximum(t, q * 2 * m.pi) * (1 + e) + 4e-15, sac > t * (1 + e))))
    good = m.and_(m.not_(off), m.or_(sac <= t, m.and_(sac <= sab, d <= t)))
    yield Implies(good, Iff('at the depth of the path, in its direction and not beyond its end is accepted', res, yes),
                  sure(m.symbolic or m.and_(g, m.or_(sac <= t * (1 - e), m.and_(sac <= sab * (1 - e),
                                                                             d <= t * (1 - e) - 4e-15)))))


P = [('A', 'B'), ('A', 'n')]
N3 = ('N', 1, 3)
F0 = ['core.on_great_circle', 'core.cross_track_distance', 'core.great_circle_normal', 'util.unit']
F1 = ['core.on_great_circle_path'] + F0
OC = [dict(N=N, axes=a, z=z, default=d) for N in N3 for a, z, d in (('e', 'cols', 1), ('E', 'scalar', 0))]
FO = ['objects.GeoPath.nvectors', 'objects.GeoPath._get_average_radius', 'util.isclose']


def slow(**c):
    return dict(c, thorough=True) if c['N'] == 3 else c


CF = [dict(N=N) for N in N3] + [dict(N=N, default=1) for N in ('N', 1)] + [slow(N=N, rad='cols') for N in ('N', 3)] + \
    [slow(N=N, one=o) for N in ('N', 3) for o in (('A', 'B'), ('n',))]
CONTRACTS = [
    Contract('on_great_circle', F0, inputs, gc_call, gc,
             CF, c11.requires, pairs=P, keep=keep, cuts=c11.cuts, trials=2),
    Contract('on_great_circle_path', F1, inputs, path_call, path,
             CF, c11.requires, pairs=P, keep=keep, cuts=path_cuts, trials=2),
    Contract('on_great_circle_path, positions of the great circle', F1, in_inputs, in_call, inside,
             [slow(N=N) for N in N3] + [slow(N=N, one='AB') for N in ('N', 3)], in_requires, pairs=P[:1],
             keep=in_keep, cuts=in_cuts, trials=3),
    Contract('on_great_circle_path, end points', F1, lambda c: {k: v for k, v in in_inputs(c).items() if k not in 'pq'},
             end_call, ends, [dict(N=N) for N in N3], c11.requires, pairs=P[:1],
             keep=lambda m, s, c: keep(m, s, c) and float(s.t / s.r) > 1e-9),
    Contract('GeoPath.on_great_circle', ['objects.GeoPath.on_great_circle', 'objects.GeoPath.cross_track_distance'] + FO,
             oo_inputs, oo_gc_call, oo_gc, OC, c11.oo_requires, pairs=P, keep=c11.keep,
             stubs=['n_EB_E2p_EB_E', 'cross_track_distance', 'isclose']),
    Contract('GeoPath.on_path', ['objects.GeoPath.on_path', 'objects.GeoPath._on_great_circle_path'] + FO, oo_inputs,
             oo_path_call, oo_path, [dict(c, method=k) for c, k in zip(OC, [None, 'greatcircle'] * 3)],
             c11.oo_requires, pairs=P, keep=c11.keep, stubs=['n_EB_E2p_EB_E', 'on_great_circle_path', 'isclose']),
    Contract('GeoPath.on_path on the ellipsoid',
             ['objects.GeoPath.on_path', 'objects.GeoPath._on_ellipsoid_path', 'objects._base_angle', 'util.isclose'],
             ell_inputs, ell_call, ell,
             [dict(N=N, axes='e', method=k, default=d, **({} if d and N is None else dict(thorough=True)))
              for N in (None, 1, 2) for k, d in (('ellipsoid', 1), ('exact', 0))],
             ell_requires, budget=150.0, stubs=['_Geodesic', 'isclose']),
]
