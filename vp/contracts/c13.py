"""C13: closest point on a great circle and on a path."""
from ..contract import *
from .. import spec as sp
from .c02 import DEPTHS
from . import c11

NAMES = ('A', 'B', 'n')
W = dict(lo=None, hi=None, glo=-1.5, ghi=1.5, edges=[0.0, 1.0, -1.0, 1e-3])


def inputs(c):
    one = c.get('one', ())
    d = dict((k, Unit(1 if k in one else 'N')) for k in NAMES)
    if c.get('other'):
        d['p'], d['q'] = Real(('N',), **W), Real(('N',), **W)
    return d


def foot(m, s):
    """|c|^2 and the part of n in the plane of A and B (c = A x B), times |c|^2"""
    c = sp.cross(s.A, s.B)
    q = sp.dot(c, c)
    return c, q, [s.n[i] * q - sp.dot(c, s.n) * c[i] for i in range(3)]


def requires(m, s, cfg):
    c, q, g = foot(m, s)
    k = sp.dot(c, s.n)
    return [q > 0, q - k * k > 0, sp.dot(g, g) > 0]      # not a degenerate path, not at the pole of the great circle


def keep(m, s, cfg):
    c, q, g = foot(m, s)
    u = sp.dot(g, g) / (q * q)
    return all(float(v) > 1e-8 for v in np.ravel(q)) and all(float(v) > 1e-6 for v in np.ravel(u))


def call(nv, x, cfg):
    return nv.closest_point_on_great_circle((x.A, x.B), x.n)


def tol(m, s):
    c, q, g = foot(m, s)
    return 0 if m.symbolic else 4e-15 * (1 + 1 / q ** 0.5) * (1 + q / sp.norm(m, g))


def ensures(m, s, x, cfg):
    c, q, g = foot(m, s)
    z = 0 * x[0]
    t = tol(m, s)
    yield Shape('shape', x, (3, 'N'))
    yield Eq('unit length', sp.dot(x, x), 1 + z, 5e-15)
    yield Eq('on the great circle', sp.dot(x, c) / (1 if m.symbolic else q ** 0.5), z, t)
    yield Le('on the side of the position', z, sp.dot(x, s.n), 0 if m.symbolic else 1e-15)
    xn = sp.dot(x, s.n)
    for k in 'AB':
        yield Eq('the rest of the position is perpendicular to ' + k, sp.dot(s.n, s[k]) - xn * sp.dot(x, s[k]), z, t)


def near_cuts(m, s, cfg):
    """For every point y of the great circle, (y . n)^2 is at most |y|^2 times the squared cosine of the angle between the
    position and the plane, because the difference is the square of (y x n) . c / |c|."""
    c, q, g = foot(m, s)
    y = [s.p * s.A[i] + s.q * s.B[i] for i in range(3)]
    k, t, yn, yy = sp.dot(c, s.n), sp.dot(sp.cross(y, s.n), c), sp.dot(y, s.n), sp.dot(y, y)
    d = yy * (q - k * k) - yn * yn * q
    yield Cut('t', t, unfold=True)
    yield Cut('d', d, rule=(1, t * t))
    yield Le('no other point of the great circle is nearer than the foot of the perpendicular', 0 * d, d)


def nearest(m, s, x, cfg):
    c, q, g = foot(m, s)
    y = [s.p * s.A[i] + s.q * s.B[i] for i in range(3)]
    k, yn, yy, xn = sp.dot(c, s.n), sp.dot(y, s.n), sp.dot(y, y), sp.dot(x, s.n)
    t = tol(m, s)
    yield Le('on the side of the position', 0 * xn, xn, 0 if m.symbolic else 1e-15)
    if m.symbolic:
        yield Eq('as near as the foot of the perpendicular', xn * xn * q, q - k * k)
    else:
        yield Le('no other point of the great circle is nearer', yn * yn, yy * xn * xn, t * (1 + yy))


# ------------------------------------------------------------------------------------------------------ GeoPath
def oo_inputs(c):
    d = dict((k, Unit()) for k in NAMES)
    sh = ('N',) if c['z'] == 'cols' else ()
    for k in NAMES:
        d['z' + k] = Real(sh, edges=DEPTHS)
    d['a'], d['f'] = SemiAxis(), Flat(0.5)
    return d


def objects(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])
    p = [nv.Nvector(x[k], x['z' + k], fr) for k in NAMES]
    return nv.GeoPath(p[0], p[1]), p[2], fr


def oo_call(nv, x, cfg):
    p, c, fr = objects(nv, x, cfg)
    r = p.closest_point_on_great_circle(c)
    lat, lon = nv.n_E2lat_lon(nv.closest_point_on_great_circle((x.A, x.B), x.n), fr.R_Ee)
    return r.latitude, r.longitude, r.z, lat, lon, r.frame is fr and type(r).__name__ == 'GeoPoint'


def same_angle(m, name, a, b):
    return Eq(name, a, b, 1e-15)


def oo(m, s, out, cfg):
    lat, lon, z, lat0, lon0, ok = out
    yield Check('result is a point in the frame of the position', ok, 'frame or type')
    lat, lon, z, lat0, lon0 = [m.cols(v, 0) for v in (lat, lon, z, lat0, lon0)]
    yield Shape('shape of the latitude', lat, ('N',))
    yield same_angle(m, 'latitude of the closest point', lat, lat0)
    yield same_angle(m, 'longitude of the closest point', lon, lon0)
    zm = m.cols((s.zA + s.zB) / 2, 0)
    sc = m.cols(1 + m.abs(s.zA) + m.abs(s.zB), 0)
    yield Eq('depth is the mean of the depths of the end points', z / sc, zm / sc + 0 * lat, 1e-15)


# ------------------------------------------------------------------------------------------- closest_point_on_path
def path_inputs(c):
    d = dict((k, Unit(1)) for k in NAMES)
    for k in NAMES:
        d['z' + k] = Real((1,) if c['z'] == 'cols' else (), edges=DEPTHS)
    d['a'], d['f'] = SemiAxis(), Flat(0.5)
    return d


def path_requires(m, s, cfg):
    return requires(m, s, cfg) + [c11.mean_radius(m, s, cfg) > 0]


def path_call(nv, x, cfg):
    p, c, fr = objects(nv, x, cfg)
    r = p.closest_point_on_path(c)
    C = nv.closest_point_on_great_circle((x.A, x.B), x.n)
    pA, pB = p.ecef_vectors()
    rad = (pA.length + pB.length) / 2
    on = nv.on_great_circle_path((x.A, x.B), C, rad, 1e-8)
    ll = [nv.n_E2lat_lon(v, fr.R_Ee) for v in (C, x.A, x.B)]
    return r.latitude, r.longitude, r.z, on, ll, r.frame is fr and type(r).__name__ == 'GeoPoint'


def path(m, s, out, cfg):
    lat, lon, z, on, ll, ok = out
    yield Check('result is a point in the frame of the path', ok, 'frame or type')
    lat, lon, z, on = [m.cols(v, 0) for v in (lat, lon, z, on)]
    zs = [m.cols(s['z' + k], 0) for k in 'AB']
    zs = [(zs[0] + zs[1]) / 2] + zs
    dA, dB = [sp.gc_angle(m, s[k], s.n) for k in 'AB']
    e = 1e-13
    cases = (('the point of the great circle if it is on the path', on, m.symbolic),
             ('otherwise the first end if it is nearer', m.and_(m.not_(on), dA < dB), m.and_(m.not_(on), dA < dB - e)),
             ('otherwise the last end if it is nearer', m.and_(m.not_(on), dB < dA), m.and_(m.not_(on), dB < dA - e)))
    for (name, c, sure), (la, lo), zz in zip(cases, ll, zs):
        for what, got, want in (('latitude', lat, la), ('longitude', lon, lo)):
            yield Implies(c, Eq(name + ' (%s)' % what, got, want, 1e-15), None if m.symbolic or sure is False else sure)
        sc = 1 + m.abs(zs[1]) + m.abs(zs[2])
        yield Implies(c, Eq(name + ' (depth)', z / sc, zz / sc, 1e-15), None if m.symbolic or sure is False else sure)


P = [('A', 'B'), ('A', 'n')]
F = ['core.closest_point_on_great_circle', 'core.great_circle_normal', 'util.unit']
N3 = ('N', 1, 3)
ONE = [dict(N=N, one=o) for N in ('N', 3) for o in (('A', 'B'), ('n',), ('A',))]
FO = ['objects.GeoPath._closest_point_on_great_circle', 'objects.GeoPath.nvectors']
CONTRACTS = [
    Contract('closest_point_on_great_circle', F, inputs, call, ensures, [dict(N=N) for N in N3] + ONE, requires, pairs=P,
             keep=keep, trials=2),
    Contract('closest_point_on_great_circle, against any other point', F, inputs, call, nearest,
             [dict(N=N, other=1) for N in N3], requires, pairs=P, keep=keep, cuts=near_cuts),
    Contract('GeoPath.closest_point_on_great_circle', ['objects.GeoPath.closest_point_on_great_circle'] + FO, oo_inputs,
             oo_call, oo, [dict(N=N, axes=a, z=z) for N in N3 for a, z in (('e', 'cols'), ('E', 'scalar'))], requires,
             pairs=P, keep=keep, stubs=['n_E2lat_lon', 'closest_point_on_great_circle']),
    Contract('GeoPath.closest_point_on_path',
             ['objects.GeoPath.closest_point_on_path', 'objects.GeoPath._closest_point_on_path',
              'objects.GeoPath._get_average_radius', 'objects.GeoPath._on_great_circle_path'] + FO, path_inputs,
             path_call, path, [dict(N=1, axes=a, z=z) for a, z in (('e', 'cols'), ('E', 'scalar'))], path_requires, pairs=P,
             keep=keep, trials=4, stubs=['n_E2lat_lon', 'closest_point_on_great_circle', 'n_EB_E2p_EB_E',
                                         'great_circle_distance', 'on_great_circle_path']),
]
