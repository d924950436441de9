"""C23: frame condition 'assigns nothing' for every exported function and query method."""
import types
from ..contract import *
from ..sym import SA, S
from .. import spec as sp

EXPLANATION = 'frame condition of every exported function and query method: the arguments, the public state of every object ' \
    'reachable from them, the module-level constants of nvector and the array default values of its functions have the ' \
    'same contents (the same terms, symbolically) after the call, and a repetition after a call with other arguments ' \
    'gives the same result'
STUBS = ['isclose', 'allclose', 'lat_lon2n_E', 'n_E2lat_lon', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'n_E2R_EN', 'n_E_and_wa2R_EL', 'zyx2R',
         'great_circle_distance', 'n_EA_E_distance_and_azimuth2n_EB_E', 'cross_track_distance', 'on_great_circle_path',
         'closest_point_on_great_circle', '_Geodesic']


# ---------------------------------------------------------------------------------------------------- contents
def contents(o, depth=8, seen=()):
    """hashable description of everything a caller can see of a value"""
    if isinstance(o, SA):
        return ('array', tuple(str(q) for q in o.shape), tuple(t.id for t in o.d.reshape(-1)))
    if isinstance(o, (np.ndarray, np.generic, float, int)) and not isinstance(o, bool):
        a = np.asarray(o)
        if a.dtype == object:
            return ('objects', a.shape, tuple(contents(q, depth - 1, seen) for q in a.reshape(-1)))
        return ('array', a.shape, (a.astype(float) + 0.0).tobytes() if a.dtype.kind in 'fiu' else a.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(contents(q, depth - 1, seen) for q in o)
    if isinstance(o, dict):
        return ('dict',) + tuple((str(k), contents(v, depth - 1, seen)) for k, v in sorted(o.items(), key=lambda q: str(q[0])))
    d = getattr(o, '__dict__', None)
    if type(o).__module__.startswith('nvector') and isinstance(d, dict):
        if id(o) in seen or not depth:
            return ('...',)
        return (type(o).__name__,) + tuple((k, contents(v, depth - 1, seen + (id(o),))) for k, v in sorted(d.items())
                                           if not k.startswith('_'))
    return (type(o).__name__, repr(o) if isinstance(o, (str, bool, type(None))) else '')


def constants(nv):
    out = {}
    for mn in ('util', 'rotation', 'core', 'objects'):
        mod = __import__('nvector.' + mn, fromlist=['x'])
        for k, v in sorted(vars(mod).items()):
            if k.isupper() and (isinstance(v, (int, float, np.ndarray)) or (
                    not k.startswith('_') and isinstance(v, (dict, list, tuple, str)))):
                out[mn + '.' + k] = contents(v)
            if isinstance(v, types.FunctionType):
                for i, q in enumerate(v.__defaults__ or ()):
                    if isinstance(q, np.ndarray):
                        out['%s.%s default %d' % (mn, k, i)] = contents(q)
    return out


# ---------------------------------------------------------------------------------------------------- operations
OPS = {}


def op(name, ins, fn, objs=None, **cf):
    """ins: argument name -> kind; fn(nv, q) with q.<name>; objs(nv, q) adds objects built from the arguments"""
    OPS[name] = (ins, fn, objs, cf)


class Bag(object):
    pass


POLE = [np.array([[0.6], [0.0], [0.8]]), np.array([[0.0], [0.6], [-0.8]]), np.array([[0.8], [0.48], [0.36]]),
        np.array([[0.0], [0.8], [0.6]])]


def dom(kind, c):
    col = 'N' if c.get('N') else 1
    one = (col,) if c.get('N') else ()
    if kind == 'u':
        return Vec3(col, edges=((0, 0, 0), (1, 0, 0), (0, 0, -1), (0.6, 0, 0.8), (0, 0, 2), (1e-9, 0, 0)))
    if kind == 'n':
        return Unit(col)
    if kind == 'm':         # not at a pole
        return Unit(col, exclude={'e': 2, 'E': 0}[c.get('axes', 'e')])
    if kind == 'lat':
        return Real(one, -0.5, 0.5, pi_units=True)
    if kind == 'lon':
        return Angle(one)
    if kind == 'any':
        return AnyAngle(one)
    if kind == 'z':
        return Real(one, -0.01, 0.01)
    if kind == 't':
        return Real((), 0, 1)
    if kind == 's':
        return Real((), scale=10.0, edges=[0.0, 1.0, -1.0])
    if kind == 'a':
        return SemiAxis()
    if kind == 'f':
        return Flat(0.1)
    if kind == 'M':
        return Mat(col)
    if kind == 'x':
        return Real(one, scale=10.0, edges=[0.0, 1.0, -1.0, 27.0])
    raise KeyError(kind)


def other(kind, i):
    """concrete arguments of the call in between"""
    k = (i + 1) % 4
    v = {'lat': 0.3, 'lon': 0.7, 'any': 1.1, 'z': -0.002, 't': 0.25, 's': 3.0, 'a': 6.0e6, 'f': 1 / 250.0, 'x': 8.0}
    if kind in v:
        return v[kind] + 0.01 * i
    if kind == 'M':
        return np.array([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]]).reshape(3, 3, 1)
    return POLE[k].copy()


# functions
op('lat_lon2n_E', dict(p='lat', q='lon'), lambda nv, q: nv.lat_lon2n_E(q.p, q.q, q.R))
op('n_EB_E2p_EB_E', dict(n='u', z='z', a='a', f='f'), lambda nv, q: nv.n_EB_E2p_EB_E(q.n, q.z * q.a, q.a, q.f, q.R))
op('p_EB_E2n_EB_E', dict(n='n', a='a', f='f'), lambda nv, q: nv.p_EB_E2n_EB_E(q.p, q.a, q.f, q.R),
   lambda nv, q: setattr(q, 'p', q.n * q.a))
op('n_EA_E_and_n_EB_E2p_AB_E', dict(n='u', k='u', z='z', y='z', a='a', f='f'),
   lambda nv, q: nv.n_EA_E_and_n_EB_E2p_AB_E(q.n, q.k, q.z, q.y, q.a, q.f, q.R))
op('great_circle_normal', dict(n='u', k='u'), lambda nv, q: nv.great_circle_normal(q.n, q.k))
op('interpolate', dict(n='n', k='n', t='t'), lambda nv, q: nv.interpolate((q.n, q.k), q.t))
op('intersect', dict(n='n', k='n', u='n', v='n'), lambda nv, q: nv.intersect((q.n, q.k), (q.u, q.v)))
for _m in ('greatcircle', 'euclidean'):
    op('cross_track_distance ' + _m, dict(n='n', k='n', u='n', a='a'),
       lambda nv, q, m=_m: nv.cross_track_distance((q.n, q.k), q.u, method=m, radius=q.a))
op('on_great_circle', dict(n='n', k='n', u='n', a='a'), lambda nv, q: nv.on_great_circle((q.n, q.k), q.u, radius=q.a))
op('on_great_circle_path', dict(n='n', k='n', u='n', a='a'), lambda nv, q: nv.on_great_circle_path((q.n, q.k), q.u, radius=q.a))
op('closest_point_on_great_circle', dict(n='n', k='n', u='n'), lambda nv, q: nv.closest_point_on_great_circle((q.n, q.k), q.u))
op('great_circle_distance', dict(n='u', k='u', a='a'), lambda nv, q: nv.great_circle_distance(q.n, q.k, q.a))
op('euclidean_distance', dict(n='u', k='u', a='a'), lambda nv, q: nv.euclidean_distance(q.n, q.k, q.a))
op('n_EA_E_and_n_EB_E2azimuth', dict(n='m', k='n', a='a', f='f'), lambda nv, q: nv.n_EA_E_and_n_EB_E2azimuth(q.n, q.k, q.a, q.f, q.R))
op('n_EA_E_distance_and_azimuth2n_EB_E', dict(n='n', d='any', b='any'),
   lambda nv, q: nv.n_EA_E_distance_and_azimuth2n_EB_E(q.n, q.d, q.b, q.R))
op('mean_horizontal_position', dict(n='u'), lambda nv, q: nv.mean_horizontal_position(q.n))
op('E_rotation', dict(s='s'), lambda nv, q: (nv.E_rotation(), nv.E_rotation('E'), nv.E_rotation('e')))
op('n_E2lat_lon', dict(n='u'), lambda nv, q: nv.n_E2lat_lon(q.n, q.R))
op('n_E2R_EN', dict(n='u'), lambda nv, q: nv.n_E2R_EN(q.n, q.R))
op('n_E_and_wa2R_EL', dict(n='m', b='any'), lambda nv, q: nv.n_E_and_wa2R_EL(q.n, q.b, q.R))
op('R_EL2n_E', dict(M='M'), lambda nv, q: nv.R_EL2n_E(q.M))
op('R_EN2n_E', dict(M='M'), lambda nv, q: nv.R_EN2n_E(q.M))
op('R2xyz', dict(M='M'), lambda nv, q: nv.R2xyz(q.M))
op('R2zyx', dict(M='M'), lambda nv, q: nv.R2zyx(q.M))
op('xyz2R', dict(p='any', q='any', r='any'), lambda nv, q: nv.xyz2R(q.p, q.q, q.r))
op('zyx2R', dict(p='any', q='any', r='any'), lambda nv, q: nv.zyx2R(q.p, q.q, q.r))
op('deg', dict(p='any', q='x'), lambda nv, q: (nv.deg(q.p), nv.deg(q.p, q.q)))
op('rad', dict(p='any', q='x'), lambda nv, q: (nv.rad(q.p), nv.rad(q.p, q.q)))
op('mdot', dict(M='M', n='u'), lambda nv, q: (nv.mdot(q.M, q.M), nv.mdot(q.M, q.w)),
   lambda nv, q: setattr(q, 'w', q.n[:, None]))
op('nthroot', dict(x='x'), lambda nv, q: nv.nthroot(q.y, 3), lambda nv, q: setattr(q, 'y', q.x * q.x))
op('unit', dict(n='u'), lambda nv, q: nv.unit(q.n))
op('unit of zero vectors', dict(n='u', s='s'), lambda nv, q: nv.unit(q.n, norm_zero_vector=q.s))
op('get_ellipsoid', dict(s='s'), lambda nv, q: (nv.get_ellipsoid(18), nv.get_ellipsoid('wgs 84'), nv.select_ellipsoid('Hayford')))


# objects
def world(nv, q):
    q.fr = nv.FrameE(a=q.a, f=q.f, axes=q.axes)
    q.fr2 = nv.FrameE(a=q.a, f=q.f, axes=q.axes)
    q.N1, q.N2 = q.fr.Nvector(q.n, q.z), q.fr2.Nvector(q.k, q.y)


def vec(nv, q):
    world(nv, q)
    q.P1, q.P2 = q.fr.ECEFvector(q.u), q.fr2.ECEFvector(q.v)


def points(nv, q):
    q.fr = nv.FrameE(a=q.a, f=q.f, axes=q.axes)
    q.fr2 = nv.FrameE(a=q.a, f=q.f, axes=q.axes)
    q.G1, q.G2 = q.fr.GeoPoint(q.p, q.q, q.z), q.fr2.GeoPoint(q.r, q.s, q.y)


def local(nv, q):
    vec(nv, q)
    q.FN, q.FL, q.FB = nv.FrameN(q.N2), nv.FrameL(q.N2, q.b), nv.FrameB(q.N2, q.b, q.c, q.d)
    q.D = q.fr.ECEFvector(q.u)


def pvec(nv, q):
    world(nv, q)
    q.FN = nv.FrameN(q.N2)
    q.V = q.FN.Pvector(q.u)
    q.E = q.fr.ECEFvector(q.u)


def path(nv, q):
    world(nv, q)
    q.path = nv.GeoPath(q.N1, q.N2)
    q.N3 = q.fr.Nvector(q.u, q.z)


def path2(nv, q):
    path(nv, q)
    q.path2 = nv.GeoPath(q.N3, q.fr.Nvector(q.v, q.z))


W = dict(n='n', k='n', z='z', y='z', a='a', f='f')
WM = dict(n='m', k='m', z='z', y='z', a='a', f='f')
WV = dict(W, u='u', v='u')
WVM = dict(WM, u='u', v='u', b='any', c='any', d='any')
GP = dict(p='lat', q='lon', r='lat', s='lon', z='z', y='z', a='a', f='f')
PT = dict(n='n', k='n', u='n', z='z', y='z', a='a', f='f')
op('Nvector queries', W, lambda nv, q: (q.N1.to_ecef_vector(), q.N1.to_geo_point(), q.N1.to_nvector(), q.N1.mean(), q.N1.scalar),
   world)
op('Nvector arithmetic', dict(W, x='s'), lambda nv, q: (q.N1 + q.N2, q.N1 - q.N2, -q.N1, q.N1 * q.x, q.x * q.N1, q.N1 / 2.0), world)
op('Nvector equality', W, lambda nv, q: (q.N1 == q.N2, q.N1 != q.N2, q.N1 == q.fr, q.fr == q.fr2, q.fr != q.N1), world)
op('GeoPoint queries', GP, lambda nv, q: (q.G1.to_ecef_vector(), q.G1.to_geo_point(), q.G1.to_nvector(), q.G1.latlon,
                                          q.G1.latlon_deg, q.G1.latitude_deg, q.G1.longitude_deg, q.G1.scalar), points)
op('GeoPoint distance on the ellipsoid', GP, lambda nv, q: (q.G1.distance_and_azimuth(q.G2), q.G1.distance_and_azimuth(
    q.G2, long_unroll=True, degrees=True)), points)
op('GeoPoint distance on the sphere', dict(GP, p='any'), lambda nv, q: q.G1.distance_and_azimuth(q.G2, method='greatcircle'), points)
op('GeoPoint displace on the ellipsoid', dict(GP, d='s', b='any'), lambda nv, q: (q.G1.displace(q.d, q.b), q.G1.displace(
    q.d, q.b, long_unroll=True, degrees=True)), points)
op('GeoPoint displace on the sphere', dict(GP, d='s', b='any'), lambda nv, q: q.G1.displace(q.d, q.b, method='greatcircle'), points)
op('GeoPoint equality', GP, lambda nv, q: (q.G1 == q.G2, q.G1 != q.G2), points)
op('GeoPoint constructor in degrees', GP, lambda nv, q: nv.GeoPoint(q.p, q.q, q.z, q.fr, degrees=True), points)
op('ECEFvector queries', WV, lambda nv, q: (q.P1.to_ecef_vector(), q.P1.to_nvector(), q.P1.to_geo_point(), q.P1.length),
   vec)
op('ECEFvector arithmetic', WV, lambda nv, q: (q.P1 + q.P2, q.P1 - q.P2, -q.P1, q.P1.delta_to(q.P2)), vec)
op('vector arithmetic', WV, lambda nv, q: (q.P1 + q.P2, q.P1 - q.P2, -q.P1, q.P1 == q.P2), vec)
op('change_frame', WVM, lambda nv, q: (q.D.change_frame(q.FN), q.D.change_frame(q.FL), q.D.change_frame(q.FB)), local)
op('R_EN', WVM, lambda nv, q: (q.FN.R_EN, q.FL.R_EN, q.FB.R_EN), local)
op('local vectors', WVM, lambda nv, q: (q.FN.Pvector(q.u), q.FL.Pvector(q.v), q.FB.Pvector(q.u)), local)
op('frame equality', WVM, lambda nv, q: (q.FN == q.FL, q.FB != q.FN, q.FN == q.FN), local)
op('Pvector queries', dict(WM, u='u', v='u'), lambda nv, q: (q.V.to_ecef_vector(), q.V.length, q.V.azimuth, q.V.azimuth_deg,
                                                            q.V.elevation, q.V.elevation_deg), pvec)
op('Pvector positions', dict(WM, u='u', v='u'), lambda nv, q: (q.E.to_nvector(), q.E.to_geo_point()), pvec)
op('delta_E', W, lambda nv, q: (nv.delta_E(q.N1, q.N2), nv.diff_positions(q.N1, q.N2)), world)
op('delta_N', WM, lambda nv, q: (nv.delta_N(q.N1, q.N2), q.N1.delta_to(q.N2)), world)
op('delta_L', dict(WM, b='any'), lambda nv, q: nv.delta_L(q.N1, q.N2, q.b), world)
op('delta_E of points', GP, lambda nv, q: (nv.delta_E(q.G1, q.G2), q.G1.delta_to(q.G2)), points)
op('path views', PT, lambda nv, q: (q.path.nvectors(), q.path.geo_points(), q.path.ecef_vectors(), q.path.nvector_normals(),
                                    q.path.positionA, q.path.positionB), path)
op('path track_distance', PT, lambda nv, q: (q.path.track_distance(), q.path.track_distance(method='euclidean'),
                                             q.path.track_distance(radius=q.a)), path)
op('path track_distance on the ellipsoid', PT, lambda nv, q: q.path.track_distance(method='exact'), path)
op('path cross_track_distance', PT, lambda nv, q: (q.path.cross_track_distance(q.N3), q.path.cross_track_distance(
    q.N3, method='euclidean', radius=q.a)), path)
op('path intersect', dict(PT, v='n'), lambda nv, q: q.path.intersect(q.path2), path2)
op('path on_great_circle', PT, lambda nv, q: q.path.on_great_circle(q.N3), path)
op('path on_path', PT, lambda nv, q: q.path.on_path(q.N3), path)
op('path on_path on the ellipsoid', PT, lambda nv, q: q.path.on_path(q.N3, method='ellipsoid'), path)
op('path closest points', PT, lambda nv, q: q.path.closest_point_on_great_circle(q.N3), path)
op('path closest point on path', PT, lambda nv, q: q.path.closest_point_on_path(q.N3), path, single=True)
op('path interpolate', dict(PT, t='t'), lambda nv, q: q.path.interpolate(q.t), path)
op('FrameE.inverse', GP, lambda nv, q: (q.fr.inverse(q.p, q.q, q.r, q.s), q.fr.inverse(q.p, q.q, q.r, q.s, z=q.zz, degrees=True)),
   lambda nv, q: (points(nv, q), setattr(q, 'zz', q.z)))
op('FrameE.direct', dict(GP, d='s', b='any'), lambda nv, q: (q.fr.direct(q.p, q.q, q.b, q.d), q.fr.direct(
    q.p, q.q, q.b, q.d, z=q.z, long_unroll=True, degrees=True)), points)
op('FrameE factories', dict(GP, n='u'), lambda nv, q: (q.fr.GeoPoint(q.p, q.q, q.z), q.fr.Nvector(q.n, q.z), q.fr.ECEFvector(q.n),
                                                       q.fr.GeoPoint(q.p, q.q, q.z, degrees=True)), points)


# ---- numerical only: interpolation in time (scipy), printing, lists and odd memory layouts
def tracks(nv, q):
    q.T = np.array([0.0, 1.0, 2.5])
    q.ti = np.array([0.0, 0.5, 2.0, 2.5, 3.0])
    q.n3 = np.reshape(q.M, (3, 3, -1))[:, :, 0]
    q.trk = nv.Nvector(q.n3, np.array([1.0, 2.0, 3.0]))


def long_track(nv, q):
    q.T = np.arange(9.0)
    q.ti = np.array([0.0, 0.5, 2.0, 7.5, 9.0])
    q.nn = np.hstack([np.reshape(q.M, (3, 3, -1))[:, :, 0]] * 3)
    q.trk = nv.Nvector(q.nn, 5.0)


op('interp_nvectors', dict(M='M'), lambda nv, q: nv.interp_nvectors(q.ti, q.T, q.n3), tracks, num=True)
op('interp_nvectors smoothed', dict(M='M'), lambda nv, q: nv.interp_nvectors(q.ti, q.T, q.nn, window_length=4), long_track, num=True)
op('Nvector.interpolate', dict(M='M'), lambda nv, q: (q.trk.interpolate(q.ti, q.T), q.trk.interpolate(q.ti, q.T, kind='nearest')),
   tracks, num=True)
op('Nvector.interpolate smoothed', dict(M='M'), lambda nv, q: q.trk.interpolate(q.ti, q.T, window_length=5), long_track, num=True)
op('repr', dict(PT, v='n'), lambda nv, q: [repr(o) for o in (q.fr, q.N1, q.path, q.N1.to_geo_point())] and 0, path2, num=True)


def inputs(c):
    return {k: dom(v, c) for k, v in OPS[c['op']][0].items()}


def bag(nv, vals, cfg):
    q = Bag()
    q.axes = cfg.get('axes', 'e')
    q.R = None if cfg.get('R') is None else np.array(sp.AXES[cfg['R']], dtype=float) if cfg['R'] != 'const' else \
        nv.E_rotation(q.axes)
    for k, v in vals.items():
        setattr(q, k, v)
    objs = OPS[cfg['op']][2]
    if objs is not None:
        objs(nv, q)
    return q


def call(nv, x, cfg):
    ins, fn, objs, cf = OPS[cfg['op']]
    q = bag(nv, x, cfg)
    before, consts = contents(vars(q)), constants(nv)
    r1 = fn(nv, q)
    c1 = contents(r1)
    ok = [('arguments and objects', contents(vars(q)) == before), ('module-level constants', constants(nv) == consts)]
    alt = {k: other(v, i) for i, (k, v) in enumerate(sorted(ins.items()))}
    if any(isinstance(v, SA) for v in x.values()):
        alt = {k: S(v) if isinstance(v, np.ndarray) else v for k, v in alt.items()}
    fn(nv, bag(nv, alt, cfg))
    ok.append(('arguments and objects, by a call with others', contents(vars(q)) == before))
    ok.append(('an earlier result', contents(r1) == c1))
    r2 = fn(nv, q)
    ok += [('arguments and objects, by a repeated call', contents(vars(q)) == before),
           ('module-level constants, by repeated calls', constants(nv) == consts)]
    return ok, contents(r2) == c1


def ensures(m, s, out, cfg):
    ok, rep = out
    for what, good in ok:
        yield Check('not modified: ' + what, good, what + ' modified')
    yield Check('a repeated call gives an identical result', rep, 'the second result differs')


FUN = {'core': ['lat_lon2n_E', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'n_EA_E_and_n_EB_E2p_AB_E', 'great_circle_normal', 'interpolate',
                'intersect', 'cross_track_distance', 'on_great_circle', 'on_great_circle_path', 'closest_point_on_great_circle',
                'great_circle_distance', 'euclidean_distance', 'n_EA_E_and_n_EB_E2azimuth',
                'n_EA_E_distance_and_azimuth2n_EB_E', 'mean_horizontal_position', 'interp_nvectors'],
       'rotation': ['E_rotation', 'n_E2lat_lon', 'n_E2R_EN', 'n_E_and_wa2R_EL', 'R_EL2n_E', 'R_EN2n_E', 'R2xyz', 'R2zyx', 'xyz2R', 'zyx2R'],
       'util': ['deg', 'rad', 'mdot', 'nthroot', 'unit', 'get_ellipsoid']}
FLAT = ['%s.%s' % (k, v) for k, vs in FUN.items() for v in vs]
OO = ['objects.Nvector', 'objects.GeoPoint', 'objects.ECEFvector', 'objects.Pvector', 'objects.GeoPath', 'objects.FrameE',
      'objects.FrameN', 'objects.FrameL', 'objects.FrameB', 'objects.delta_E', 'objects.delta_N', 'objects.delta_L']
FIRST_OBJ = 'Nvector queries'


def cfgs(objects, num):
    out = []
    names = list(OPS)
    cut = names.index(FIRST_OBJ)
    for i, n in enumerate(names):
        ins, fn, objs, cf = OPS[n]
        if (i >= cut) != objects or bool(cf.get('num')) != num:
            continue
        if not objects:
            for N, R in ((None, 'e'), ('N', 'E'), (3, None), (1, 'const')):
                out.append(dict(N=N, op=n, R=R, axes='e' if R != 'E' else 'E'))
        else:
            for N, ax in ((None, 'E'), ('N', 'e'))[:1 if cf.get('single') else 2]:
                out.append(dict(N=N, op=n, axes=ax))
    return out


CONTRACTS = [
    Contract('functions', FLAT, inputs, call, ensures, cfgs(False, False), trials=2),
    Contract('objects', OO, inputs, call, ensures, cfgs(True, False), stubs=STUBS,
             stub_pre=False),
    Contract('objects with iterations', OO, inputs, call, ensures, cfgs(True, True), num_only=True),
]
