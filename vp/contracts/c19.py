"""C19: great-circle displacement and distance of points."""
from ..contract import *
from .. import spec as sp
from .c01 import rot
from . import c16

H = c16.H
LAT = dict(edges=[0.0, 1e-3, -1e-3, 1.5, -1.5, 0.7853981633974483])
LON = dict(edges=[0.0, 1e-3, -1e-3, 3.14159, -3.14159, 1.5707963267948966, -1.5707963267948966, 2.5, -2.5])
SCALED = 'degrees'


def angle(c, k, lo, hi, d):
    d = dict(d)
    if c.get('deg'):
        d['edges'] = [e * 180 / np.pi for e in d['edges']]
    sh = ('N',) if k in c['cols'] else ()
    if c.get('deg'):
        return Real(sh, lo * 180, hi * 180, open_lo=True, open_hi=True, **d)
    return Real(sh, lo, hi, pi_units=True, open_lo=True, open_hi=True, **d)


def inputs(c):
    d = {}
    for p in c.get('points', 'AB'):
        d['lat' + p] = angle(c, 'lat' + p, -0.5, 0.5, LAT)
        d['lon' + p] = angle(c, 'lon' + p, -1, 1, LON)
        d['h' + p] = Real(('N',) if 'h' + p in c['cols'] else (), **H)
    d.update(a=SemiAxis(), f=Flat(0.5))
    return d


def rad_of(m, s, cfg, k):
    v = m.cols(s[k], 0)
    return v * m.pi / 180 if cfg.get('deg') else v


def normal(m, s, cfg, p):
    like = 0
    for k in ('lat', 'lon', 'h'):
        like = like + 0 * m.cols(s[k + p], 0)
    return [m.cols(v, 0) for v in sp.lat_lon2n(m, cfg['axes'], rad_of(m, s, cfg, 'lat' + p) + like,
                                               rad_of(m, s, cfg, 'lon' + p) + like)]


def depth(m, s, p):
    return m.cols(s['h' + p] * s.a, 0)


def requires(m, s, cfg):
    out = []
    for p in cfg.get('points', 'AB'):
        out += sp.invertible(m, cfg['axes'], normal(m, s, cfg, p), depth(m, s, p), s.a, s.f)
    return out


def keep(m, s, cfg):
    for p in cfg.get('points', 'AB'):
        q = dict(f=s.f, h=m.cols(s['h' + p], 0))
        q = type('S', (), q)
        if not c16.moderate(normal(m, s, cfg, p), q, cfg):
            return False
    return float(s.f) < 0.2


def geopoint(nv, x, cfg, p, fr):
    return nv.GeoPoint(x['lat' + p], x['lon' + p], x['h' + p] * x.a, fr, degrees=bool(cfg.get('deg')))


def call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])
    a, b = [geopoint(nv, x, cfg, p, fr) for p in 'AB']
    kw = dict(degrees=True) if cfg.get('deg') else {}
    return a.distance_and_azimuth(b, method='greatcircle', **kw), nv.GeoPath(a, b).track_distance(), \
        nv.GeoPath(a, b).track_distance(method='euclidean')


def horizontal(m, s, cfg, n, d):
    """north and east part of a vector at a position"""
    R = sp.R_EN(m, cfg['axes'], n)
    return [sum(R[i][j] * d[i] for i in range(3)) for j in range(2)]


def positions(m, s, cfg):
    return [sp.n2p_unit(m, cfg['axes'], normal(m, s, cfg, p), depth(m, s, p), s.a, s.f) for p in 'AB']


def cuts(m, s, cfg):
    for p in cfg.get('points', 'AB'):
        n = normal(m, s, cfg, p)
        e = sp.to_e(cfg['axes'], n)
        yield Le('not at a pole (%s)' % p, 0 * e[0], e[1] * e[1] + e[2] * e[2], strict=True)
        P = sp.n2p_unit(m, cfg['axes'], n, depth(m, s, p), s.a, s.f)
        for i in range(3):
            yield Cut('P%s%d' % (p, i), P[i])
        yield Le('not at the centre (%s)' % p, 0 * P[0], sp.dot(P, P), strict=True)


def heading(m, label, w, x, y, cfg, sc, tol, back=False):
    """w is the angle of the horizontal vector (x north, y east); back: computed from the opposite vector"""
    k = m.pi / 180 if cfg.get('deg') else 1
    if m.symbolic:
        want = sp.base_angle(m, m.atan2(-y, -x) - m.pi) if back else m.atan2(y, x)
        yield Eq('%s is the angle from north towards east of the direction of travel' % label, w * k, want, 0)
        return
    h = m.sqrt(x * x + y * y)
    yield Eq('sine of the %s: east part over horizontal length' % label, m.sin(w * k) * h / sc, y / sc, tol)
    yield Eq('cosine of the %s: north part over horizontal length' % label, m.cos(w * k) * h / sc, x / sc, tol)
    half = 180 if cfg.get('deg') else m.pi
    yield Le('%s >= -pi' % label, -half + 0 * w, w, 1e-13)
    yield Le('%s <= pi' % label, w, half + 0 * w, 1e-13)


def ensures(m, s, out, cfg):
    (d, wa, wb), t, te = out
    for v, k in ((d, 'distance'), (wa, 'azimuth at a'), (wb, 'azimuth at b'), (t, 'track distance')):
        yield Shape('shape of the ' + k, v, ('N',) if cfg.get('N') else ())
    nA, nB = [normal(m, s, cfg, p) for p in 'AB']
    pA, pB = positions(m, s, cfg)
    r = (sp.norm(m, pA) + sp.norm(m, pB)) / 2
    d, wa, wb, t, te = [m.cols(v, 0) for v in (d, wa, wb, t, te)]
    sc = 1 if m.symbolic else s.a
    g = r * sp.gc_angle(m, nA, nB)
    tol = 0 if m.symbolic else 1e-14
    yield Eq('mean distance from the centre times the angle', d / sc, g / sc, tol)
    yield Eq('track distance of the path is the same', t / sc, g / sc, tol)
    yield Eq('euclidean track distance is the chord of the unit sphere times the mean radius', te / sc,
             r * sp.norm(m, [nB[i] - nA[i] for i in range(3)]) / sc, tol)
    v = [pB[i] - pA[i] for i in range(3)]
    tol = 0 if m.symbolic else 1e-11
    yield from heading(m, 'azimuth at a', wa, *(horizontal(m, s, cfg, nA, v) + [cfg, sc, tol]))
    yield from heading(m, 'azimuth at b', wb, *(horizontal(m, s, cfg, nB, v) + [cfg, sc, tol, True]))


# ---------------------------------------------------------------------------------------------------- displacement
TURNS = [0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, 0.75, -2.5, 3.1]


def d_inputs(c):
    d = inputs(dict(c, points='A'))
    k = 180 / np.pi if c.get('deg') else 1.0
    d['az'] = Real(('N',) if 'az' in c['cols'] else (), glo=-4.0 * k, ghi=4.0 * k, edges=[e * k for e in TURNS])
    d['t'] = Real(('N',) if 't' in c['cols'] else (), glo=0.0, ghi=7.0, edges=[0.0, 1e-6, 0.5, 1.0, 3.0, 3.2])
    return d


def d_call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])
    a = geopoint(nv, x, cfg, 'A', fr)
    kw = dict(degrees=True) if cfg.get('deg') else {}
    b, azi = a.displace(x.t * x.a, x.az, method='greatcircle', **kw)
    n = b.to_nvector()
    return n.normal, n.z, azi, b.z, type(b).__name__ == 'GeoPoint' and b.frame is fr, (b.latitude, b.longitude)


def d_spec(m, s, cfg):
    n = normal(m, s, cfg, 'A')
    p = sp.n2p_unit(m, cfg['axes'], n, depth(m, s, 'A'), s.a, s.f)
    d = m.cols(s.t * s.a, 0) / sp.norm(m, p)
    R = sp.R_EN(m, cfg['axes'], n)
    az = rad_of(m, s, cfg, 'az')
    return p, d, [n[i] * m.cos(d) + (R[i][0] * m.cos(az) + R[i][1] * m.sin(az)) * m.sin(d) for i in range(3)]


def d_ensures(m, s, out, cfg):
    n, zn, azi, z, ok, ll = out
    yield Check('result is a geographic point of the same frame', ok, 'type or frame')
    yield Shape('shape of the n-vector', n, (3, 'N') if cfg.get('N') else (3, 1))
    for v, k in ((z, 'depth'), (azi, 'azimuth'), (ll[0], 'latitude'), (ll[1], 'longitude')):
        yield Shape('shape of the ' + k, v, ('N',) if cfg.get('N') else ())
    p, d, nB = d_spec(m, s, cfg)
    sc = 1 if m.symbolic else s.a
    for i in range(3):
        yield Eq('n-vector of the end point, component %d' % i, n[i], nB[i] + 0 * n[i], 0 if m.symbolic else 2e-14)
    for v in (zn, z):
        yield Eq('the depth is kept', m.cols(v, 0) / s.a, m.cols(s.hA, 0) + 0 * n[0], 1e-15)
    azi = m.cols(azi, 0)
    pB = sp.n2p_unit(m, cfg['axes'], nB, depth(m, s, 'A'), s.a, s.f)
    v = [pB[i] - p[i] for i in range(3)]
    x, y = horizontal(m, s, cfg, nB, v)
    yield from heading(m, 'azimuth at the end', azi, x, y, cfg, sc, 0 if m.symbolic else 1e-11, True)


def d_cuts(m, s, cfg):
    yield from cuts(m, s, cfg)
    p, d, nB = d_spec(m, s, cfg)
    yield Cut('d', d)
    yield Eq('the end point is a unit vector', sp.dot(nB, nB), 1 + 0 * nB[0])
    for i in range(3):
        yield Cut('N%d' % i, nB[i])
    pB = sp.n2p_unit(m, cfg['axes'], nB, depth(m, s, 'A'), s.a, s.f)
    for i in range(3):
        yield Cut('PB%d' % i, pB[i])


# ------------------------------------------------------------------------------------------- reverse of a direction
def rev_call(nv, x, cfg):
    import nvector.objects as ob
    np = ob.np      # (pi is exact in the symbolic run)
    return ob._base_angle(np.arctan2(-x.y, -x.x) - np.pi), ob._base_angle(x.t)


def rev(m, s, out, cfg):
    w, t = out
    h = m.sqrt(s.x * s.x + s.y * s.y)
    yield from heading2(m, w, s.x, s.y, h)
    yield Eq('reduced angle: same sine', m.sin(t), m.sin(s.t), 1e-15 * 8)
    yield Eq('reduced angle: same cosine', m.cos(t), m.cos(s.t), 1e-15 * 8)
    yield Le('reduced angle >= -pi', -m.pi + 0 * t, t, 1e-15)
    yield Le('reduced angle <= pi', t, m.pi + 0 * t, 1e-15)
    yield Eq('the reverse of a direction', w, sp.base_angle(m, m.atan2(-s.y, -s.x) - m.pi),
             0) if m.symbolic else Le('no effect', 0 * t, 0 * t)


def heading2(m, w, x, y, h):
    yield Implies(h > 0, Eq('sine: east part over horizontal length', m.sin(w) * h, y, 1e-15 * 9 * (0 if m.symbolic else 1)))
    yield Implies(h > 0, Eq('cosine: north part over horizontal length', m.cos(w) * h, x, 1e-15 * 9))
    yield Le('angle >= -pi', -m.pi + 0 * w, w, 1e-15)
    yield Le('angle <= pi', w, m.pi + 0 * w, 1e-15)


ST = ['lat_lon2n_E', 'n_E2lat_lon', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'n_E2R_EN', 'great_circle_distance',
      'euclidean_distance', 'n_EA_E_distance_and_azimuth2n_EB_E']
ALL = ('latA', 'lonA', 'hA', 'latB', 'lonB', 'hB')
ALLD = ('latA', 'lonA', 'hA', 't', 'az')
CONTRACTS = [
    Contract('reverse of a direction', ['objects._base_angle'], lambda c: dict(
        x=Real(('N',), glo=-2, ghi=2, edges=[0.0, 1.0, -1.0, 1e-9]), y=Real(('N',), glo=-2, ghi=2, edges=[0.0, 1.0, -1.0, -1e-9]),
        t=Real(('N',), glo=-10, ghi=10, edges=TURNS + [2 * math.pi, -2 * math.pi, 3 * math.pi])),
        rev_call, rev, [dict(N=N) for N in ('N', 1)]),
    Contract('distance and azimuth', ['objects.GeoPoint.distance_and_azimuth', 'objects._base_angle',
                                      'objects.GeoPoint._distance_and_azimuth_greatcircle', 'objects.delta_N',
                                      'objects.Pvector.azimuth', 'objects.Pvector.length',
                                      'objects.GeoPath.track_distance', 'objects.GeoPath._get_average_radius'],
             inputs, call, ensures, [dict(N=N, axes=a, deg=d, cols=ALL) for N in ('N', 1, 3)
                                     for a, d in (('e', False), ('E', True))] +
             [dict(N='N', axes='e', deg=False, cols=('latB', 'hA', 'lonB')), dict(N=None, axes='E', deg=False, cols=()),
              dict(N=None, axes='e', deg=True, cols=())], requires, stubs=ST, keep=keep, trials=0.5, cuts=cuts),
    Contract('displacement', ['objects.GeoPoint.displace', 'objects.GeoPoint._displace_great_circle', 'objects._base_angle',
                              'objects.delta_N', 'objects.Pvector.azimuth', 'objects.Pvector.length'],
             d_inputs, d_call, d_ensures, [dict(N=N, axes=a, deg=d, cols=ALLD, points='A') for N in ('N', 1, 3)
                                           for a, d in (('e', False), ('E', True))] +
             [dict(N='N', axes='e', deg=False, cols=('t', 'az'), points='A'),
              dict(N=None, axes='E', deg=False, cols=(), points='A'),
              dict(N=None, axes='e', deg=True, cols=(), points='A')], requires, stubs=ST, keep=keep, trials=0.5, cuts=d_cuts),
]
