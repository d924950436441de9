"""C16: conversions between position objects."""
from ..contract import *
from .. import spec as sp
from .c01 import rot

AX = ('e', 'E')
H = dict(glo=-0.5, ghi=0.3, edges=[0.0, 1e-3, -1e-3, -0.05, -5.0, 0.1])


def common(c):
    sh = ('N',) if c['z'] == 'cols' else ()
    return dict(h=Real(sh, **H), a=SemiAxis(), f=Flat(0.5))


def depth(x):
    return x.h * x.a


def frame(nv, x, cfg):
    return nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])


def ok_kind(o, kind, fr):
    return type(o).__name__ == kind and o.frame is fr


def n_cols(m, z, like):
    """a depth of one value or one per column, as one per column"""
    return m.cols(z, 0) + 0 * like


def domain(m, n, s, cfg):
    return sp.invertible(m, cfg['axes'], n, depth(s), s.a, s.f)


def moderate(n, s, cfg):
    """runtime companion: away from the region where rounding is amplified"""
    m = NumMath(1)
    e = sp.to_e(cfg['axes'], n)
    g = 1 - s.f
    w = m.sqrt(e[1] * e[1] + e[2] * e[2] + g * g * e[0] * e[0])
    return float(s.f) < 0.3 and all(float(k) > 0.3 for k in np.ravel(g * g / w - s.h))


# ---------------------------------------------------------------------------------------------------- GeoPoint
def geo_inputs(c):
    s1 = ('N',) if c.get('lat', 'cols') == 'cols' else ()
    s2 = ('N',) if c.get('lon', 'cols') == 'cols' else ()
    d = dict(lat=Real(s1, -0.5, 0.5, pi_units=True, open_lo=True, open_hi=True,
                      edges=[0.0, 1e-9, -1e-9, 1.5, -1.5, 1.57, 0.7853981633974483]),
             lon=Real(s2, -1, 1, pi_units=True, open_lo=True,
                      edges=[0.0, 1e-9, -1e-9, 3.14159, -3.14159, 1.5707963267948966, -1.5707963267948966, 2.5, -2.5]))
    d.update(common(c))
    return d


def geo_n(m, s, cfg):
    return [m.cols(v, 0) for v in sp.lat_lon2n(m, cfg['axes'], s.lat, s.lon)]


def geo_requires(m, s, cfg):
    return domain(m, geo_n(m, s, cfg), s, cfg)


def geo_keep(m, s, cfg):
    return moderate(geo_n(m, s, cfg), s, cfg)


def geo_call(nv, x, cfg):
    fr = frame(nv, x, cfg)
    z = depth(x)
    g = nv.GeoPoint(x.lat, x.lon, z, fr)
    n, p = g.to_nvector(), g.to_ecef_vector()
    g2, g3, n2, p2 = n.to_geo_point(), p.to_geo_point(), p.to_nvector(), n.to_ecef_vector()
    n0 = nv.lat_lon2n_E(x.lat + 0 * x.lon, x.lon + 0 * x.lat, rot(nv, cfg))
    p0 = nv.n_EB_E2p_EB_E(n0, z, x.a, x.f, rot(nv, cfg))
    kinds = [(g, 'GeoPoint'), (n, 'Nvector'), (p, 'ECEFvector'), (g2, 'GeoPoint'), (g3, 'GeoPoint'), (n2, 'Nvector'),
             (p2, 'ECEFvector')]
    ok = all(ok_kind(o, k, fr) for o, k in kinds) and g.to_geo_point() is g and n.to_nvector() is n and \
        p.to_ecef_vector() is p
    return ok, (n.normal, n.z, n0), (p.pvector, p2.pvector, p0), [(q.latitude, q.longitude, q.z) for q in (g, g2, g3)], \
        (n2.normal, n2.z)


def geo(m, s, out, cfg):
    ok, (n, zn, n0), (p, p2, p0), gs, (n2, z2) = out
    yield Check('types and frames of the results', ok, 'wrong type or frame of a converted position')
    z = depth(s)
    yield Shape('shape of the n-vector', n, (3, 'N') if cfg.get('N') else (3, 1))
    yield Shape('shape of the position vector', p, (3, 'N') if cfg.get('N') else (3, 1))
    yield Eq('to_nvector is lat_lon2n_E with the axes of the frame', n, n0, 0)
    zc = n_cols(m, z, m.arr(n)[0])
    yield Eq('to_nvector keeps the depth', n_cols(m, zn, m.arr(n)[0]) / s.a, zc / s.a, 1e-15)
    yield Eq('to_ecef_vector is n_EB_E2p_EB_E with the ellipsoid of the frame', p, p0, 0)
    yield Eq('to_ecef_vector by way of the n-vector', p2, p0, 0)
    lat, lon = [m.cols(v, 0) + 0 * m.arr(n)[0] for v in (s.lat, s.lon)]
    for q, (la, lo, zz), k in zip(('construction', 'by way of the n-vector', 'by way of the ECEF vector'), gs, (0, 1, 2)):
        t = 0
        if not m.symbolic:
            t = (0, 1e-15, 1e-12 if float(s.f) < 0.02 else 1e-9)[k] * (1 + m.abs(s.h))
        la, lo, zz = [m.cols(v, 0) for v in (la, lo, zz)]
        tl = t / m.cos(lat) if k else 0
        yield Eq('latitude (%s)' % q, la, lat, t + tl + 3e-15 * bool(k))
        yield Eq('longitude (%s)' % q, lo, lon, tl + 4e-16 / m.cos(lat) * bool(k) if not m.symbolic else 0)
        yield Eq('depth (%s)' % q, zz / s.a, zc / s.a, t + 1e-15)
    t = 0 if m.symbolic else (1e-12 if float(s.f) < 0.02 else 1e-9) * (1 + m.abs(s.h))
    yield Eq('n-vector by way of the ECEF vector', n2, n0, t)
    yield Eq('depth of the n-vector by way of the ECEF vector', n_cols(m, z2, m.arr(n2)[0]) / s.a, zc / s.a, t)


# ------------------------------------------------------------------------------------------------------ Nvector
def n_inputs(c):
    d = dict(n=Unit())
    d.update(common(c))
    return d


def n_requires(m, s, cfg):
    return domain(m, s.n, s, cfg)


def n_keep(m, s, cfg):
    return moderate(s.n, s, cfg)


def n_call(nv, x, cfg):
    fr = frame(nv, x, cfg)
    z = depth(x)
    n = nv.Nvector(x.n, z, fr)
    g, p = n.to_geo_point(), n.to_ecef_vector()
    n1, n2, n3 = g.to_nvector(), p.to_nvector(), p.to_geo_point().to_nvector()
    ll = nv.n_E2lat_lon(x.n, rot(nv, cfg))
    p0 = nv.n_EB_E2p_EB_E(x.n, z, x.a, x.f, rot(nv, cfg))
    kinds = [(g, 'GeoPoint'), (n, 'Nvector'), (p, 'ECEFvector'), (n1, 'Nvector'), (n2, 'Nvector'), (n3, 'Nvector')]
    ok = all(ok_kind(o, k, fr) for o, k in kinds) and n.to_nvector() is n
    return ok, (g.latitude, g.longitude, g.z), ll, (p.pvector, p0), [(q.normal, q.z) for q in (n1, n2, n3)]


def nvec(m, s, out, cfg):
    ok, (la, lo, zg), ll, (p, p0), ns = out
    yield Check('types and frames of the results', ok, 'wrong type or frame of a converted position')
    e = m.arr(s.n)[0]
    zc = n_cols(m, depth(s), e)
    yield Eq('to_geo_point is n_E2lat_lon with the axes of the frame (latitude)', m.cols(la, 0), m.cols(ll[0], 0), 0)
    yield Eq('to_geo_point is n_E2lat_lon with the axes of the frame (longitude)', m.cols(lo, 0), m.cols(ll[1], 0), 0)
    yield Eq('to_geo_point keeps the depth', m.cols(zg, 0) / s.a, zc / s.a, 1e-15)
    yield Shape('shape of the position vector', p, (3, 'N'))
    yield Eq('to_ecef_vector is n_EB_E2p_EB_E with the ellipsoid of the frame', p, p0, 0)
    for q, (n, z), k in zip(('geodetic', 'ECEF', 'ECEF and geodetic'), ns, range(3)):
        t = 0
        if not m.symbolic:
            t = (3e-15, 1e-12 if float(s.f) < 0.02 else 1e-9)[min(k, 1)] * (1 + m.abs(s.h))
        yield Shape('shape of the n-vector by way of the %s position' % q, n, (3, 'N'))
        yield Eq('n-vector by way of the %s position' % q, n, s.n, t)
        yield Eq('depth by way of the %s position' % q, n_cols(m, z, e) / s.a, zc / s.a, t + 1e-15)


# -------------------------------------------------------------------------------------------------- ECEFvector
def p_inputs(c):
    return dict(w=Vec3(scale=1.0, edges=((0, 0, 1.1), (0, -1, 0), (1, 0, 0), (-0.9, 0.3, 0))), a=SemiAxis(), f=Flat(0.5))


def p_requires(m, s, cfg):
    return [sp.outside_core(m, cfg['axes'], [x * s.a for x in s.w], s.a, s.f)]


def p_keep(m, s, cfg):
    u = sp.dot(s.w, s.w)
    return float(s.f) < 0.3 and all(0.6 < float(v) < 100 for v in np.ravel(u))


def p_call(nv, x, cfg):
    if hasattr(x.w, 'tg'):
        from ..verify import StubContext
        StubContext.current.p2n_facts = True
    fr = frame(nv, x, cfg)
    p0 = x.w * x.a
    p = nv.ECEFvector(p0, fr)
    n, g = p.to_nvector(), p.to_geo_point()
    n0, z0 = nv.p_EB_E2n_EB_E(p0, x.a, x.f, rot(nv, cfg))
    lat0, lon0 = nv.n_E2lat_lon(n0, rot(nv, cfg))
    p1, p2 = n.to_ecef_vector(), p.to_ecef_vector()
    n1 = g.to_nvector()
    kinds = [(g, 'GeoPoint'), (n, 'Nvector'), (p1, 'ECEFvector'), (n1, 'Nvector')]
    ok = all(ok_kind(o, k, fr) for o, k in kinds) and p2 is p
    return ok, (n.normal, n.z, n0, z0), (g.latitude, g.longitude, g.z, lat0, lon0), (p1.pvector, p0), (n1.normal, n1.z), \
        (None if hasattr(x.w, 'tg') else g.to_ecef_vector().pvector)


def pvec(m, s, out, cfg):
    ok, (n, z, n0, z0), (la, lo, zg, lat0, lon0), (p1, p0), (n1, z1), p3 = out
    yield Check('types and frames of the results', ok, 'wrong type or frame of a converted position')
    yield Shape('shape of the n-vector', n, (3, 'N'))
    yield Eq('to_nvector is p_EB_E2n_EB_E with the ellipsoid and axes of the frame', n, n0, 0)
    yield Eq('to_nvector has the depth of p_EB_E2n_EB_E', m.cols(z, 0), m.cols(z0, 0), 0)
    yield Eq('to_geo_point is n_E2lat_lon of that n-vector (latitude)', m.cols(la, 0), m.cols(lat0, 0), 0)
    yield Eq('to_geo_point is n_E2lat_lon of that n-vector (longitude)', m.cols(lo, 0), m.cols(lon0, 0), 0)
    yield Eq('to_geo_point has the same depth', m.cols(zg, 0), m.cols(z0, 0), 0)
    t = 0 if m.symbolic else (1e-12 if float(s.f) < 0.02 else 1e-9) * (1 + sp.dot(s.w, s.w))
    yield Eq('ECEF vector by way of the n-vector', p1 / s.a, p0 / s.a, t)
    yield Eq('n-vector by way of the geodetic position', n1, n0, 4e-15)
    yield Eq('depth by way of the geodetic position', m.cols(z1, 0), m.cols(z0, 0), 0)
    if p3 is not None:
        yield Eq('ECEF vector by way of the geodetic position', p3 / s.a, p0 / s.a, t)


# ------------------------------------------------------------------------------------------------ degrees, FrameE
def deg_call(nv, x, cfg):
    fr = frame(nv, x, cfg)
    g = nv.GeoPoint(x.lat, x.lon, x.z, fr, degrees=True)
    g2 = fr.GeoPoint(x.lat, x.lon, x.z, degrees=True)
    n2 = fr.Nvector(x.v, x.z)
    p2 = fr.ECEFvector(x.v)
    ok = [ok_kind(o, k, fr) for o, k in ((g, 'GeoPoint'), (g2, 'GeoPoint'), (n2, 'Nvector'), (p2, 'ECEFvector'))]
    return all(ok), [(g.latitude, g.longitude, g.z), (g2.latitude, g2.longitude, g2.z), g.latlon], \
        [(g.latitude_deg, g.longitude_deg, g.z), g.latlon_deg], (n2.normal, n2.z), p2.pvector


def degs(m, s, out, cfg):
    ok, rads, degrees, (n, z), p = out
    yield Check('types and frames of the results', ok, 'wrong type or frame')
    like = 0 * (m.cols(s.lat, 0) + m.cols(s.lon, 0) + m.cols(s.z, 0))
    k = m.pi / 180
    for name, vals, f in (('radians', rads, k), ('degrees', degrees, 1)):
        for v in vals:
            for w, got, want in zip(('latitude', 'longitude', 'depth'), v, (s.lat * f, s.lon * f, s.z)):
                yield Eq('%s in %s' % (w, name), m.cols(got, 0), m.cols(want, 0) + like,
                         0 if m.symbolic else 4e-16 * (1 + m.abs(m.cols(want, 0))))
    yield Eq('FrameE.Nvector holds the n-vector', n, s.v, 0)
    yield Eq('FrameE.Nvector holds the depth', z, s.z, 0)
    yield Eq('FrameE.ECEFvector holds the vector', p, s.v, 0)


def deg_inputs(c):
    sh = [(('N',) if c.get(k, 'cols') == 'cols' else ()) for k in ('lat', 'lon', 'z')]
    w = dict(glo=-200.0, ghi=200.0, edges=[0.0, 90.0, -90.0, 180.0, -180.0, 45.0, 360.0])
    return dict(lat=Real(sh[0], **w), lon=Real(sh[1], **w), z=Real(sh[2], edges=[0.0, 100.0, -5.0]), v=Vec3(
        'N' if c.get('N') else 1), a=SemiAxis(), f=Flat(0.5))


MIX = [dict(axes=a, lat='s', lon='s', z='s') for a in AX] + \
    [dict(N=N, axes=a, z=z) for N in ('N', 1, 3) for a, z in (('e', 'cols'), ('E', 's'))] + \
    [dict(N=N, axes='e', z='s', lat='s') for N in ('N', 3)] + [dict(N='N', axes='E', z='cols', lon='s')]
ST = ['lat_lon2n_E', 'n_E2lat_lon', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E']
FG = ['objects.GeoPoint.' + k for k in ('__init__', 'to_nvector', 'to_ecef_vector', 'to_geo_point', 'scalar')]
FN = ['objects.Nvector.' + k for k in ('__init__', 'to_nvector', 'to_ecef_vector', 'to_geo_point', 'scalar')]
FP = ['objects.ECEFvector.' + k for k in ('__init__', 'to_nvector', 'to_ecef_vector', 'to_geo_point')]
CN = [dict(N=N, axes=a, z=z) for N in ('N', 1, 3) for a in AX for z in ('cols', 's')]
CONTRACTS = [
    Contract('conversions of a GeoPoint', FG + FN + FP, geo_inputs, geo_call, geo, MIX, geo_requires, keep=geo_keep,
             stubs=ST),
    Contract('conversions of an Nvector', FG + FN + FP, n_inputs, n_call, nvec, CN, n_requires, keep=n_keep, stubs=ST),
    Contract('conversions of an ECEFvector', FG + FN + FP, p_inputs, p_call, pvec,
             [dict(N=N, axes=a) for N in ('N', 1, 3) for a in AX], p_requires, keep=p_keep, stubs=ST),
    Contract('degrees and constructors', FG + ['objects.FrameE.GeoPoint', 'objects.FrameE.Nvector', 'objects.FrameE.ECEFvector',
                                               'objects.GeoPoint.latlon', 'objects.GeoPoint.latlon_deg',
                                               'objects.GeoPoint.latitude_deg', 'objects.GeoPoint.longitude_deg'],
             deg_inputs, deg_call, degs, MIX),
]
