"""C18: ellipsoidal direct and inverse problem."""
from ..contract import *
from .. import spec as sp

TRUSTED = ['geographiclib.geodesic.Geodesic: Inverse and Direct solve the geodesic problem on the ellipsoid they were '
           'constructed with; Direct inverts Inverse; the distance of Inverse is symmetric (assumed, not verified)']
H = dict(glo=-0.5, ghi=0.3, edges=[0.0, 1e-3, -1e-3, -0.05])
LAT = dict(glo=-80.0, ghi=80.0, edges=[0.0, 30.0, -45.0, 80.0, -80.0, 1.0])
LON = dict(glo=-179.0, ghi=179.0, edges=[0.0, 90.0, -90.0, 170.0, -170.0, 179.0])
AZI = dict(glo=-180.0, ghi=180.0, edges=[0.0, 90.0, -90.0, 45.0, 180.0, -135.0])
DIST = dict(glo=0.0, ghi=20.0, edges=[0.0, 1e-6, 1.0, 3.0, 6.0, 12.0])


def unit_of(x, cfg, k):
    """an angle input in the units of the call"""
    return x[k] if cfg.get('deg') else x[k] * (np.pi / 180)


def real(c, k, d):
    sh = ('N',) if k in c['cols'] else ()
    d = dict(d)
    if not c.get('deg'):
        d = {q: [e * np.pi / 180 for e in v] if q == 'edges' else v * np.pi / 180 for q, v in d.items()}
    return Real(sh, **d)


def common(c):
    return dict(h=Real(('N',) if 'h' in c['cols'] else (), **H), a=SemiAxis(), f=Flat(0.02))


def inv_inputs(c):
    d = dict(lat_a=real(c, 'lat_a', LAT), lon_a=real(c, 'lon_a', LON), lat_b=real(c, 'lat_b', LAT), lon_b=real(c, 'lon_b', LON))
    d.update(common(c))
    return d


def dir_inputs(c):
    d = dict(lat_a=real(c, 'lat_a', LAT), lon_a=real(c, 'lon_a', LON), azi=real(c, 'azi', AZI),
             t=Real(('N',) if 't' in c['cols'] else (), **DIST))
    d.update(common(c))
    return d


def degs(m, s, cfg, k):
    """angle input k in degrees"""
    v = m.cols(s[k], 0)
    return v if cfg.get('deg') else v * 180 / m.pi


def units(m, cfg, v):
    """degrees -> units of the call"""
    return v if cfg.get('deg') else v * m.pi / 180


def out1(m, s, cfg, v):
    return m.cols(v, 0)


def shapes(m, cfg, vs, names):
    for v, k in zip(vs, names):
        yield Shape('shape of the ' + k, v, ('N',) if cfg.get('N') and cfg['cols'] else ())


def close(m, cond, eq):
    """runtime companion: compare where the geodesic problem is well conditioned"""
    return eq if m.symbolic else Implies(cond, eq)


def angle(m, label, got, want, cfg, cond, tol):
    """angles in the units of the call, compared modulo a turn at run time (the oracle runs on rounded input)"""
    if m.symbolic:
        return Eq(label, got, want, 0)
    k = 180 / m.pi if not cfg.get('deg') else 1
    d = (got - want) * k
    d = d - 360 * np.vectorize(lambda q: sp.mpmath.nint(q / 360), otypes=[object])(d)
    return Implies(cond, Eq(label, d, 0 * d, tol))


def inv_call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg.get('axes', 'e'))
    kw = dict(degrees=True) if cfg.get('deg') else {}
    if cfg.get('unroll') is not None:
        kw['long_unroll'] = cfg['unroll']
    return fr.inverse(x.lat_a, x.lon_a, x.lat_b, x.lon_b, x.h * x.a, **kw)


def geod(m, kind, names, unroll, *args):
    return [m.uf('geo_%s_%s_%d' % (kind, n, unroll if n == 'lon2' else 0), *args) for n in names]


def inverse_spec(m, s, cfg, z=None):
    q = [degs(m, s, cfg, k) for k in ('lat_a', 'lon_a', 'lat_b', 'lon_b')]
    z = m.cols(s.h * s.a, 0) if z is None else z
    return geod(m, 'inv', ('s12', 'azi1', 'azi2'), bool(cfg.get('unroll')), s.a - z, s.f, *q)


def well(m, s, d, z=None):
    """distance neither tiny nor near antipodal"""
    if m.symbolic:
        return None
    r = d / (s.a - (m.cols(s.h * s.a, 0) if z is None else z))
    return (r > 0.01) & (r < 2.8)


def inv_ensures(m, s, out, cfg):
    yield from shapes(m, cfg, out, ('distance', 'azimuth at a', 'azimuth at b'))
    d, aa, ab = inverse_spec(m, s, cfg)
    g = [m.cols(v, 0) for v in out]
    yield Eq('distance of the geodesic on the ellipsoid (a - z, f)', g[0] / s.a, d / s.a, 1e-13)
    ok = well(m, s, d)
    for k, got, want in (('a', g[1], aa), ('b', g[2], ab)):
        yield angle(m, 'azimuth of the geodesic at ' + k, got, units(m, cfg, want), cfg, ok, 1e-9)
    yield Le('distance is not negative', 0 * g[0], g[0])


def dir_call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg.get('axes', 'e'))
    kw = dict(degrees=True) if cfg.get('deg') else {}
    if cfg.get('unroll') is not None:
        kw['long_unroll'] = cfg['unroll']
    return fr.direct(x.lat_a, x.lon_a, x.azi, x.t * x.a, x.h * x.a, **kw)


def direct_spec(m, s, cfg):
    q = [degs(m, s, cfg, k) for k in ('lat_a', 'lon_a', 'azi')]
    return geod(m, 'dir', ('lat2', 'lon2', 'azi2'), bool(cfg.get('unroll')), s.a - m.cols(s.h * s.a, 0), s.f, *(
        q + [m.cols(s.t * s.a, 0)]))


def off_pole(m, lat):
    return None if m.symbolic else abs(lat) < 89


def dir_ensures(m, s, out, cfg):
    yield from shapes(m, cfg, out, ('latitude', 'longitude', 'azimuth at b'))
    la, lo, ab = direct_spec(m, s, cfg)
    g = [m.cols(v, 0) for v in out]
    ok = off_pole(m, la)
    yield angle(m, 'latitude of the end of the geodesic', g[0], units(m, cfg, la), cfg, ok, 1e-10)
    if m.symbolic or cfg.get('unroll'):
        # an unrolled longitude is compared as a number
        yield close(m, ok, Eq('longitude of the end of the geodesic', g[1], units(m, cfg, lo), 0 if m.symbolic else 1e-8))
    else:
        yield angle(m, 'longitude of the end of the geodesic', g[1], units(m, cfg, lo), cfg, ok, 1e-8)
        yield Le('longitude is not unrolled', abs(g[1]), units(m, cfg, m.c(180)) + 0 * g[1], 1e-12)
    yield angle(m, 'azimuth at the end of the geodesic', g[2], units(m, cfg, ab), cfg, ok, 1e-8)


# ------------------------------------------------------------------------------------------------------- points
def pt_inputs(c):
    d = inv_inputs(c)
    d['h2'] = Real(('N',) if 'h' in c['cols'] else (), **H)
    return d


def pt_call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg.get('axes', 'e'))
    dg = {'degrees': True} if cfg.get('deg') else {}
    a = nv.GeoPoint(x.lat_a, x.lon_a, x.h * x.a, fr, **dg)
    b = fr.GeoPoint(x.lat_b, x.lon_b, x.h2 * x.a, **dg)
    kw = dict(dg)
    if cfg.get('unroll') is not None:
        kw['long_unroll'] = cfg['unroll']
    if cfg.get('method'):
        kw['method'] = cfg['method']
    return a.distance_and_azimuth(b, **kw), b.distance_and_azimuth(a, **kw), \
        [nv.GeoPath(a, b).track_distance(method=k) for k in ('ellipsoid', 'exact')]


def pt_ensures(m, s, out, cfg):
    out, back, track = out
    yield from shapes(m, cfg, out, ('distance', 'azimuth at a', 'azimuth at b'))
    z = (m.cols(s.h * s.a, 0) + m.cols(s.h2 * s.a, 0)) / 2
    d, aa, ab = inverse_spec(m, s, cfg, z)
    g = [m.cols(v, 0) for v in out]
    b = [m.cols(v, 0) for v in back]
    yield Eq('distance of the geodesic at the mean depth', g[0] / s.a, d / s.a, 1e-13)
    ok = well(m, s, d, z)
    for k, got, want in (('a', g[1], aa), ('b', g[2], ab)):
        yield angle(m, 'azimuth of the geodesic at ' + k, got, units(m, cfg, want), cfg, ok, 1e-9)
    yield Eq('distance is symmetric', b[0] / s.a, d / s.a, 1e-13)
    half = units(m, cfg, m.c(180))
    if not m.symbolic:
        yield angle(m, 'azimuth at a is opposite to that of the exchanged problem', b[2], g[1] + half, cfg, ok, 1e-8)
        yield angle(m, 'azimuth at b is opposite to that of the exchanged problem', b[1], g[2] + half, cfg, ok, 1e-8)
    for t in track:
        yield Eq('track distance is that of the geodesic', m.cols(t, 0) / s.a, d / s.a, 1e-13)


def disp_call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg.get('axes', 'e'))
    dg = {'degrees': True} if cfg.get('deg') else {}
    a = nv.GeoPoint(x.lat_a, x.lon_a, x.h * x.a, fr, **dg)
    kw = dict(dg)
    if cfg.get('unroll') is not None:
        kw['long_unroll'] = cfg['unroll']
    if cfg.get('method'):
        kw['method'] = cfg['method']
    b, azi = a.displace(x.t * x.a, x.azi, **kw)
    return b.latitude, b.longitude, azi, b.z, type(b).__name__ == 'GeoPoint' and b.frame is fr


def disp_ensures(m, s, out, cfg):
    la, lo, azi, z, ok = out
    yield Check('result is a geographic point of the same frame', ok, 'type or frame')
    yield from shapes(m, cfg, (la, lo, azi, z), ('latitude', 'longitude', 'azimuth at b', 'depth'))
    wla, wlo, wazi = direct_spec(m, s, cfg)
    rad_ = dict(cfg, deg=False)
    ok = off_pole(m, wla)
    la, lo, azi, z = [m.cols(v, 0) for v in (la, lo, azi, z)]
    yield angle(m, 'latitude of the end of the geodesic', la, units(m, rad_, wla), rad_, ok, 1e-10)
    if m.symbolic or cfg.get('unroll'):
        yield close(m, ok, Eq('longitude of the end of the geodesic', lo, units(m, rad_, wlo), 0 if m.symbolic else 1e-9))
    else:
        yield angle(m, 'longitude of the end of the geodesic', lo, units(m, rad_, wlo), rad_, ok, 1e-8)
        yield Le('longitude is not unrolled', abs(lo), m.pi + 0 * lo, 1e-12)
    yield angle(m, 'azimuth at the end of the geodesic', azi, units(m, cfg, wazi), cfg, ok, 1e-8)
    yield Eq('the depth is kept', z / s.a, m.cols(s.h, 0) + 0 * z / s.a, 1e-15)


# ---------------------------------------------------------------------------------------------------- round trip
def trip_call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg.get('axes', 'e'))
    dg = {'degrees': True} if cfg.get('deg') else {}
    z = x.h * x.a
    a = nv.GeoPoint(x.lat_a, x.lon_a, z, fr, **dg)
    b = nv.GeoPoint(x.lat_b, x.lon_b, z, fr, **dg)
    d, aa, ab = a.distance_and_azimuth(b, **dg)
    q, azi = a.displace(d, aa, **dg)
    return q.latitude, q.longitude, q.z, azi, ab, d


def trip_ensures(m, s, out, cfg):
    la, lo, z, azi, ab, d = [m.cols(v, 0) for v in out]
    rad_ = dict(cfg, deg=False)
    wla, wlo = [units(m, rad_, degs(m, s, cfg, k)) for k in ('lat_b', 'lon_b')]
    ok = well(m, s, d)
    yield angle(m, 'displacing by the distance and azimuth gives the latitude', la, wla, rad_, ok, 1e-9)
    if m.symbolic:
        # longitudes agree modulo a turn
        t = (lo - wlo) / (2 * m.pi)
        yield Eq('displacing by the distance and azimuth gives the longitude', m.sin(lo - wlo), 0 * t, 0)
        yield Eq('displacing by the distance and azimuth gives the longitude (same side)', m.cos(lo - wlo), 0 * t + 1, 0)
    else:
        yield angle(m, 'displacing by the distance and azimuth gives the longitude', lo, wlo, rad_, ok, 1e-8)
    yield angle(m, 'displacing arrives with the azimuth at b', azi, ab, cfg, ok, 1e-8)
    yield Eq('displacing keeps the depth', z / s.a, m.cols(s.h, 0), 1e-15)


G = ['_Geodesic']
ALLI = ('lat_a', 'lon_a', 'lat_b', 'lon_b', 'h')
ALLD = ('lat_a', 'lon_a', 'azi', 't', 'h')


def grid(all_, partial, **kw):
    out = []
    for N in ('N', 1, 2, 3):
        for deg in (False, True):
            for u in (None, True) if N in ('N', 2) else (False,):
                out.append(dict(N=N, deg=deg, unroll=u, cols=all_, **kw))
    for c in partial:
        out.append(dict(N='N', deg=False, unroll=False, cols=c, **kw))
        out.append(dict(N=2, deg=True, unroll=None, cols=c, **kw))
    for deg in (False, True):
        out.append(dict(N=None, deg=deg, unroll=None, cols=(), **kw))
    return out


CONTRACTS = [
    Contract('inverse', ['objects.FrameE.inverse', 'objects.FrameE._inverse', 'objects.FrameE._outmask', 'util.deg', 'util.rad'],
             inv_inputs, inv_call, inv_ensures, grid(ALLI, [('lat_b', 'lon_b'), ('h',)]), stubs=G, trials=0.3),
    Contract('direct', ['objects.FrameE.direct', 'objects.FrameE._direct', 'objects.FrameE._outmask', 'util.deg', 'util.rad'],
             dir_inputs, dir_call, dir_ensures, grid(ALLD, [('t', 'azi'), ('h',), ('t',)]), stubs=G, trials=0.3),
    Contract('distance and azimuth of points', ['objects.GeoPoint.distance_and_azimuth',
                                                'objects.GeoPoint._distance_and_azimuth_ellipsoid',
                                                'objects.GeoPath.track_distance', 'objects.GeoPath.geo_points',
                                                'objects.FrameE.inverse'],
             pt_inputs, pt_call, pt_ensures, grid(ALLI, [('lat_b', 'lon_b'), ('h',)]) +
             [dict(N='N', deg=False, unroll=None, cols=ALLI, axes='E', method='ellipsoid')], stubs=G, trials=0.3),
    Contract('displacement of points', ['objects.GeoPoint.displace', 'objects.GeoPoint._displace_ellipsoid',
                                        'objects.GeoPoint.latitude_deg', 'objects.GeoPoint.longitude_deg',
                                        'objects.FrameE.direct', 'objects.FrameE.GeoPoint'],
             dir_inputs, disp_call, disp_ensures, grid(ALLD, [('t', 'azi'), ('h',)]) +
             [dict(N='N', deg=False, unroll=None, cols=ALLD, axes='E', method='ellipsoid')], stubs=G, trials=0.3),
    Contract('direct inverts inverse', ['objects.GeoPoint.displace', 'objects.GeoPoint.distance_and_azimuth'], inv_inputs,
             trip_call, trip_ensures, [dict(N=N, deg=d, cols=ALLI) for N in ('N', 1, 3) for d in (False, True)] +
             [dict(N=None, deg=False, cols=())], stubs=G, trials=0.3),
]
