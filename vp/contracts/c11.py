"""C11: cross-track distance."""
from ..contract import *
from .. import spec as sp
from .c02 import DEPTHS

NAMES = ('A', 'B', 'n')


def inputs(c):
    one = c.get('one', ())
    d = dict((k, Unit(1 if k in one else 'N')) for k in NAMES)
    if c.get('rad', 'default') != 'default':
        d['r'] = Radius(('N',) if c['rad'] == 'cols' else ())
    return d


def requires(m, s, cfg):
    c = sp.cross(s.A, s.B)
    return [sp.dot(c, c) > 0]


def keep(m, s, cfg):
    c = sp.cross(s.A, s.B)
    return all(float(v) > 1e-10 for v in np.ravel(sp.dot(c, c)))


def call(nv, x, cfg):
    k = {} if cfg['method'] is None else dict(method=cfg['method'])
    if cfg['rad'] != 'default':
        k['radius'] = x.r
    return nv.cross_track_distance((x.A, x.B), x.n, **k), nv.cross_track_distance((x.B, x.A), x.n, **k)


def clauses(m, s, d, r, euclid):
    c = sp.cross(s.A, s.B)
    L = sp.norm(m, c)
    t = 0 if m.symbolic else 2e-15 * (1 + 1 / L)
    th = d / r
    right = -sp.dot(c, s.n)             # minus the normal of the plane points to the right of the direction A -> B
    if euclid:
        yield Eq('radius times the sine of the angle to the plane, positive to the right', th, right / L, t)
        return
    yield Eq('sine of the angle to the plane, positive to the right', m.sin(th), right / L, t)
    yield Le('at most a quarter turn', th, m.pi / 2 + 0 * th, 1e-15)
    yield Le('at least minus a quarter turn', -m.pi / 2 + 0 * th, th, 1e-15)


def cuts(m, s, cfg):
    """|c . n| <= |c| by the identity of Lagrange: |c|^2 - (c . n)^2 = |c x n|^2"""
    c = sp.cross(s.A, s.B)
    L = sp.norm(m, c)
    yield Le('the normal of the plane is not zero', 0 * L, L, strict=True)
    g, w = sp.dot(c, s.n) / L, [x / L for x in sp.cross(c, s.n)]
    yield Cut('w', m.vec(w), unfold=True)
    yield Cut('g', g, unfold=True)
    yield Eq('identity of Lagrange', 1 - g * g, sp.dot(w, w))
    yield Le('the sine is at most one', g * g, 1 + 0 * g)


def ensures(m, s, out, cfg):
    d, d2 = out
    r = s.r if cfg['rad'] != 'default' else m.c(6371009.0)
    yield Shape('shape of distance', d, ('N',))
    euclid = (cfg['method'] or 'g')[0] in 'eE'
    for c in clauses(m, s, d, r, euclid):
        yield c
    c = sp.cross(s.A, s.B)
    L = sp.norm(m, c)
    yield Eq('reversing the path flips the sign', m.sin(d2 / r) if not euclid else d2 / r,
             -(m.sin(d / r) if not euclid else d / r), 0 if m.symbolic else 2e-15)


# ----------------------------------------------------------------------------- position at the pole of the plane
def pole_call(nv, x, cfg):
    c = nv.great_circle_normal(x.A, x.B)
    return [nv.cross_track_distance((x.A, x.B), w, cfg['method'], x.r) for w in (c, -c)]


def pole(m, s, out, cfg):
    dp, dn = out
    g = cfg['method'][0] == 'g'
    if g and m.symbolic:        # the angle is the arcsine of a number in [-1, 1]
        yield Eq('minus a quarter turn at the left pole of the path', m.sin(dp / s.r), -1 + 0 * dp)
        yield Eq('a quarter turn at the right pole of the path', m.sin(dn / s.r), 1 + 0 * dp)
        return
    q, t = (m.pi / 2, 1e-7) if g else (m.c(1), 1e-15)
    yield Eq('minus a quarter turn at the left pole of the path', dp / s.r, -q + 0 * dp, t)
    yield Eq('a quarter turn at the right pole of the path', dn / s.r, q + 0 * dp, t)


# ------------------------------------------------------------------------------------------- great_circle_normal
def normal_call(nv, x, cfg):
    return nv.great_circle_normal(x.A, x.B)


def normal(m, s, n, cfg):
    c = sp.cross(s.A, s.B)
    L = sp.norm(m, c)
    t = 0 if m.symbolic else 2e-15 * (1 + 1 / L)
    z = 0 * n[0]
    yield Shape('shape', n, (3, 'N'))
    yield Eq('unit length', sp.dot(n, n), 1 + z, 5e-15)
    yield Eq('perpendicular to A', sp.dot(n, s.A), z, t)
    yield Eq('perpendicular to B', sp.dot(n, s.B), z, t)
    yield Eq('the triple product with A and B is the sine of their angle', sp.dot(n, c), L, 1e-14)


def nan_call(nv, x, cfg):
    return nv.great_circle_normal(x.A, KIND[cfg['kind']](x)), nv.cross_track_distance((x.A, KIND[cfg['kind']](x)), x.n)


KIND = {'same': lambda x: x.A, 'antipodal': lambda x: -x.A}


def nan(m, s, out, cfg):
    n, d = out
    for i in range(3):
        yield Iff('component %d of the normal of a degenerate path is NaN' % i, m.isnan(n[i]), m.true())
    yield Iff('the distance to a degenerate path is NaN', m.isnan(d), m.true())


# ------------------------------------------------------------------------------------------------------ GeoPath
def oo_inputs(c):
    d = dict((k, Unit()) for k in NAMES)
    for k in NAMES:
        d['z' + k] = Real(('N',) if c['z'] == 'cols' else (), edges=DEPTHS)
    d['a'], d['f'] = SemiAxis(), Flat(0.5)
    if c.get('rad'):
        d['r'] = Radius(())
    return d


def oo_call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])
    p = [nv.Nvector(x[k], x['z' + k], fr) for k in NAMES]
    if cfg.get('geo'):
        p = [q.to_geo_point() for q in p]
    k = {} if cfg['method'] is None else dict(method=cfg['method'])
    if cfg.get('rad'):
        k['radius'] = x.r
    return nv.GeoPath(p[0], p[1]).cross_track_distance(p[2], **k)


def mean_radius(m, s, cfg):
    pA = sp.n2p_unit(m, cfg['axes'], s.A, s.zA, s.a, s.f)
    pB = sp.n2p_unit(m, cfg['axes'], s.B, s.zB, s.a, s.f)
    return (sp.norm(m, pA) + sp.norm(m, pB)) / 2


def oo(m, s, d, cfg):
    d = m.cols(d, 0)
    yield Shape('shape of distance', d, ('N',))
    r = s.r if cfg.get('rad') else mean_radius(m, s, cfg)
    if not cfg.get('rad') and not m.symbolic and any(float(v) < 1e-3 for v in np.ravel(r)):
        return
    for c in clauses(m, s, d, r, (cfg['method'] or 'g')[0] in 'eE'):
        yield c


def oo_requires(m, s, cfg):
    out = requires(m, s, cfg)
    if not cfg.get('rad'):
        out.append(mean_radius(m, s, cfg) > 0)
    return out


def draw_pole(cfg, rng, n):
    """positions close to the pole of the great circle"""
    out = {k: [] for k in NAMES}
    for _ in range(n):
        a, b = Unit().draw(rng), None
        while b is None or abs(sum(p * q for p, q in zip(a, b))) > 0.999:
            b = Unit().draw(rng)
        c = np.cross(a, b)
        c = c / np.linalg.norm(c) * rng.choice([1, -1])
        if rng.random() < 0.5:
            c = c + 10.0 ** rng.uniform(-16, -6) * np.array([rng.gauss(0, 1) for _ in range(3)])
            c = c / np.linalg.norm(c)
        for k, v in zip(NAMES, (a, b, c)):
            out[k].append(v)
    d = {k: np.array(v).T for k, v in out.items()}
    d['r'] = np.array(6371009.0)
    return d


P = [('A', 'B'), ('A', 'n')]
F = ['core.cross_track_distance', 'core._great_circle_cross_track_distance',
     'core._euclidean_cross_track_distance', 'core.great_circle_normal', 'util.unit']
N3 = ('N', 1, 3)
CONTRACTS = [
    Contract('great_circle_normal', ['core.great_circle_normal', 'util.unit'],
             lambda c: {k: Unit(1 if k in c.get('one', ()) else 'N') for k in 'AB'}, normal_call, normal,
             [dict(N=N) for N in N3] + [dict(N=N, one=o) for N in ('N', 3) for o in 'AB'], requires, pairs=P[:1],
             keep=keep),
    Contract('cross_track_distance', F, inputs, call, ensures,
             [dict(N=N, rad='scalar', method=k) for N in N3 for k in ('greatcircle', 'euclidean')] +
             [dict(N=N, rad='default', method=k) for N in ('N', 1) for k in (None, 'Euclidean', 'GreatCircle')] +
             [dict(N=N, rad='cols', method=k) for N in ('N', 3) for k in ('greatcircle', 'euclidean')] +
             [dict(N=N, rad='scalar', method='greatcircle', one=o) for N in ('N', 3) for o in (
                 ('A', 'B'), ('n',), ('A',))],
             requires, pairs=P, keep=keep, trials=2, cuts=cuts),
    Contract('position at the pole of the great circle', F, lambda c: dict(A=Unit(), B=Unit(), r=Radius()), pole_call,
             pole, [dict(N=N, method=k) for N in N3 for k in ('greatcircle', 'euclidean')], requires, pairs=P[:1],
             keep=keep),
    Contract('positions near the pole of the great circle (floating point)', F, inputs, call, ensures,
             [dict(N=N, rad='scalar', method=k) for N in N3 for k in ('greatcircle', 'euclidean')], requires,
             draw=draw_pole, num_only=True, keep=keep, trials=2),
    Contract('degenerate paths', F, lambda c: dict(A=Unit(), n=Unit()), nan_call, nan,
             [dict(N=N, kind=k) for N in N3 for k in KIND]),
    Contract('GeoPath.cross_track_distance',
             ['objects.GeoPath.cross_track_distance', 'objects.GeoPath._get_average_radius',
              'objects.GeoPath.nvector_normals', 'objects.GeoPath.ecef_vectors', 'objects.Pvector.length'] + F,
             oo_inputs, oo_call, oo,
             [dict(N=N, axes=a, z=z, method=k, rad=r) for N in N3
              for a, z, k, r in (('e', 'cols', None, 0), ('E', 'scalar', 'euclidean', 0), ('e', 'scalar', None, 1),
                                 ('e', 'scalar', 'greatcircle', 0))], oo_requires, pairs=P, keep=keep, cuts=cuts,
             stubs=['n_EB_E2p_EB_E', 'lat_lon2n_E', 'n_E2lat_lon']),
]
