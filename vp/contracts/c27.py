"""C27: the choice of the axes of E changes vectors by the fixed rotation and nothing else."""
from ..contract import *
from ..sym import SA, S
from .. import spec as sp
from .. import sym
from .. import term as tm

EXPLANATION = 'relational contracts: the same operation is run with the axes "e" and with the axes "E" on the same positions ' \
    '(the vectors of the first run are those of the second, rotated); both runs are related by the fixed rotation'
STUBS = ['isclose', 'allclose', 'lat_lon2n_E', 'n_E2lat_lon', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'n_E2R_EN', 'n_E_and_wa2R_EL', 'zyx2R',
         'great_circle_distance', 'euclidean_distance', 'closest_point_on_great_circle', '_Geodesic']


def turn(v):
    """components with the axes e of a vector with components v with the axes E"""
    if isinstance(v, SA):
        return sym.TABLE['stack']([-v[2], v[1], v[0]]) if 'stack' in sym.TABLE else sym.stack([-v[2], v[1], v[0]], 0)
    v = np.asarray(v)
    return np.stack([-v[2], v[1], v[0]]) + 0.0


def unturn(v):
    return [v[2], v[1], -v[0]]


# ------------------------------------------------------------------------------------------------ functions
FN = {}


def fn(name, ins, f, pairs=None):
    FN[name] = (ins, f)


class Q(object):
    pass


# f(nv, q) -> list of (label, kind, value); q.R is the rotation matrix, vectors already in its axes
fn('lat_lon2n_E', dict(p='lat', q='lon'), lambda nv, q: [('n', 'E', nv.lat_lon2n_E(q.p, q.q, q.R))])
fn('n_E2lat_lon', dict(n='n'), lambda nv, q: list(zip(('latitude', 'longitude'), ('lat', 'ang'), nv.n_E2lat_lon(q.n, q.R))))
fn('n_EB_E2p_EB_E', dict(n='n', z='z', a='a', f='f'), lambda nv, q: [('p', 'pE', nv.n_EB_E2p_EB_E(q.n, q.z * q.a, q.a, q.f, q.R))])
fn('p_EB_E2n_EB_E', dict(v='v', a='a', f='f'), lambda nv, q: list(zip(('n', 'depth'), ('E0', 'len'), nv.p_EB_E2n_EB_E(
    q.v * q.a, q.a, q.f, q.R))))
fn('n_EA_E_and_n_EB_E2p_AB_E', dict(n='n', k='n', z='z', y='z', a='a', f='f'),
   lambda nv, q: [('p', 'pE', nv.n_EA_E_and_n_EB_E2p_AB_E(q.n, q.k, q.z * q.a, q.y * q.a, q.a, q.f, q.R))])
fn('n_EA_E_and_p_AB_E2n_EB_E', dict(n='n', v='v', z='z', a='a', f='f'),
   lambda nv, q: list(zip(('n', 'depth'), ('E0', 'len'), nv.n_EA_E_and_p_AB_E2n_EB_E(q.n, q.v * q.a, q.z * q.a, q.a, q.f, q.R))))
fn('n_EA_E_and_n_EB_E2azimuth', dict(n='m', k='n', a='a', f='f'),
   lambda nv, q: [('azimuth', 'ang', nv.n_EA_E_and_n_EB_E2azimuth(q.n, q.k, q.a, q.f, q.R))])
fn('n_EA_E_distance_and_azimuth2n_EB_E', dict(n='m', d='any', b='any'),
   lambda nv, q: [('n', 'E', nv.n_EA_E_distance_and_azimuth2n_EB_E(q.n, q.d, q.b, q.R))])
fn('n_E2R_EN', dict(n='n'), lambda nv, q: [('R_EN', 'M', nv.n_E2R_EN(q.n, q.R))])
fn('n_E_and_wa2R_EL', dict(n='m', b='any'), lambda nv, q: [('R_EL', 'M', nv.n_E_and_wa2R_EL(q.n, q.b, q.R))])
fn('inverse of R_EN', dict(n='n'), lambda nv, q: [('n', 'E', nv.R_EN2n_E(nv.n_E2R_EN(q.n, q.R)))])
fn('inverse of R_EL', dict(n='m', b='any'), lambda nv, q: [('n', 'E', nv.R_EL2n_E(nv.n_E_and_wa2R_EL(q.n, q.b, q.R)))])
fn('distances', dict(n='n', k='n', a='a'), lambda nv, q: [('great circle', 'len', nv.great_circle_distance(q.n, q.k, q.a)),
                                                          ('euclidean', 'len', nv.euclidean_distance(q.n, q.k, q.a))])
fn('great_circle_normal', dict(n='n', k='n'), lambda nv, q: [('normal', 'E', nv.great_circle_normal(q.n, q.k))])
fn('cross_track_distance', dict(n='n', k='n', u='n', a='a'), lambda nv, q: [
    (m, 'len', nv.cross_track_distance((q.n, q.k), q.u, method=m, radius=q.a)) for m in ('greatcircle', 'euclidean')])
fn('on_great_circle', dict(n='n', k='n', u='n', a='a'), lambda nv, q: [('on', 'ctd', nv.on_great_circle((q.n, q.k), q.u, radius=q.a))])
fn('on_great_circle_path', dict(n='n', k='n', u='n', a='a'), lambda nv, q: [
    ('on', 'ctd', nv.on_great_circle_path((q.n, q.k), q.u, radius=q.a))])
fn('closest_point_on_great_circle', dict(n='n', k='n', u='n'), lambda nv, q: [('n', 'E0', nv.closest_point_on_great_circle((q.n, q.k), q.u))])
fn('intersect', dict(n='n', k='n', u='n', v='n'), lambda nv, q: [('n', 'E', nv.intersect((q.n, q.k), (q.u, q.v)))])
fn('interpolate', dict(n='n', k='n', t='t'), lambda nv, q: [('n', 'E', nv.interpolate((q.n, q.k), q.t))])
fn('mean_horizontal_position', dict(n='n'), lambda nv, q: [('n', 'E0', nv.mean_horizontal_position(q.n))])


def fn_inputs(c):
    col = 'N' if c.get('N') else 1
    one = (col,) if c.get('N') else ()
    k = {'n': lambda: Unit(col), 'm': lambda: Unit(col, exclude=0), 'v': lambda: Vec3(col, edges=((1.2, 0, 0), (0, -1, 0), (0.3, 0, 1))),
         'lat': lambda: Real(one, -0.5, 0.5, pi_units=True), 'lon': lambda: Angle(one), 'any': lambda: AnyAngle(one),
         'z': lambda: Real(one, -0.01, 0.01), 'a': SemiAxis, 'f': lambda: Flat(0.1), 't': lambda: Real((), 0, 1)}
    return {n: k[q]() for n, q in FN[c['fn']][0].items()}


def fn_call(nv, x, cfg):
    ins, f = FN[cfg['fn']]
    out = []
    for ax in 'eE':
        q = Q()
        for k, v in x.items():
            setattr(q, k, turn(v) if ax == 'e' and ins[k] in 'nmv' else v)
        q.R = nv.E_rotation(ax) if not cfg.get('default') or ax == 'E' else None
        out.append(f(nv, q))
    return out


def related(m, s, one, two, a, tol):
    for cl in _related(m, s, one, two, a, tol):
        if m.symbolic and isinstance(cl, Eq) and any(t.hn for t in S(cl.got).d.reshape(-1)):
            # results that may be NaN: NaN for the same positions, and equal otherwise
            yield Iff(cl.label + ' (NaN)', m.isnan(cl.got), m.isnan(cl.spec))
            yield Implies(m.not_(m.isnan(cl.spec)), cl)
        else:
            yield cl


def _related(m, s, one, two, a, tol):
    """clauses: result of the run with axes e, of the run with axes E"""
    for (lab, kind, v1), (l2, k2, v2) in zip(one, two):
        lab = 'axes e and E: ' + lab
        v1, v2 = m.arr(v1), m.arr(v2)
        yield Shape(lab + ' (shape)', v1, np.shape(v2) if not m.symbolic else v2.shape)
        t = 0 if m.symbolic else tol
        if kind in ('E', 'E0', 'pE'):
            k = a if kind == 'pE' and not m.symbolic else 1
            w1, w2 = unturn(v1), [v2[j] for j in range(3)]
            if kind == 'E0' and m.symbolic:
                # a result that is undefined (a zero vector normalised) is the default vector (up to its sign) in both runs
                eq = dflt = m.true()
                for i in range(3):
                    eq = m.and_(eq, sym.ew(sym.R2(tm.eq), w1[i], w2[i]))
                    for v in (v1, v2):
                        dflt = m.and_(dflt, sym.ew(sym.R2(tm.eq), m.abs(v[i]) if i == 0 else v[i], S(1 if i == 0 else 0)))
                nan = [m.isnan(v[0]) for v in (v1, v2)]
                yield Iff(lab + ' (NaN)', nan[0], nan[1])
                yield Iff(lab + ' (or undefined)', m.or_(m.or_(eq, dflt), m.and_(nan[0], nan[1])), m.true())
                continue
            for i, (p, q) in enumerate(zip(w1, w2)):
                yield Eq('%s, component %d' % (lab, i), p / k, q / k, t)
        elif kind == 'M':
            for i, (p, q) in enumerate(zip(unturn(v1), [v2[j] for j in range(3)])):
                yield Eq('%s, row %d' % (lab, i), p, q, t)
        elif kind in ('bool', 'ctd'):
            yield Iff(lab, v1, v2, near_ctd(m, s, kind))
        elif m.symbolic:
            yield Eq(lab, v1, v2, 0)
        elif kind in ('ang', 'deg'):
            r = m.pi / 180 if kind == 'deg' else 1
            yield Eq(lab + ' (sine)', m.sin(v1 * r), m.sin(v2 * r), t)
            yield Eq(lab + ' (cosine)', m.cos(v1 * r), m.cos(v2 * r), t)
        else:
            k = {'len': a, 'plain': 1, 'lat': 1}[kind]
            yield Eq(lab, v1 / k, v2 / k, t)


def near_ctd(m, s, kind):
    if m.symbolic or kind != 'ctd' or 'n' not in s:
        return None
    c = sp.cross(s.n, s.k)
    L = sp.norm(m, c)
    d = m.abs(sp.dot(c, s.u)) / m.where(L > 0, L, 1 + 0 * L) * s.a
    return m.and_(d > 1e-11, d < 1e-6)


def fn_ensures(m, s, out, cfg):
    one, two = out
    a = s.a if 'a' in s else m.c(1)
    for c in related(m, s, one, two, a, cfg.get('tol', 3e-12)):
        yield c


def fn_keep(m, s, cfg):
    """runtime companion: away from poles and coinciding points, where rounding is amplified"""
    for k in ('n', 'k', 'u'):
        if k in s and FN[cfg['fn']][0][k] in 'nm' and cfg['fn'] not in ('mean_horizontal_position',):
            e = s[k]
            if any(0 < float(q) < 1e-4 for q in np.ravel(e[1] * e[1] + e[2] * e[2])):
                return False
    if 'v' in s and FN[cfg['fn']][0]['v'] == 'v':
        if any(float(q) < 0.3 for q in np.ravel(sp.dot(s.v, s.v))):
            return False
        if 'n' in s:
            w = [s.v[i] + s.n[i] for i in range(3)]
            if any(float(q) < 0.3 for q in np.ravel(sp.dot(w, w))):
                return False
    if 'n' in s and 'k' in s:
        c = sp.cross(s.n, s.k)
        if any(float(q) < 1e-4 for q in np.ravel(sp.dot(c, c))):
            return False
        if 'u' in s:
            d = sp.cross(c, s.u)
            if any(float(q) < 1e-4 for q in np.ravel(sp.dot(d, d))):
                return False
            if 'v' in s:
                d = sp.cross(s.u, s.v)
                e = sp.cross(c, d)
                if any(float(q) < 1e-4 for q in np.ravel(sp.dot(e, e))):
                    return False
    if cfg['fn'] == 'mean_horizontal_position':
        t = [np.sum(s.n[i]) for i in range(3)]
        return float(sp.dot(t, t)) > 1e-2
    return True


def fn_requires(m, s, cfg):
    out = []
    if cfg['fn'] == 'closest_point_on_great_circle':
        d = sp.cross(sp.cross(s.n, s.k), s.u)
        out.append(sp.dot(d, d) > 0)
    return out


# ------------------------------------------------------------------------------------------------ objects
def pos(nv, x, cfg, i, fr, ax):
    k = cfg['kinds'][i]
    if k == 'g':
        return fr.GeoPoint(x['lat%d' % i], x['lon%d' % i], x['z%d' % i] * x.a)
    v = x['%s%d' % (k, i)]
    v = turn(v) if ax == 'e' else v
    if k == 'n':
        return fr.Nvector(v, x['z%d' % i] * x.a)
    return fr.ECEFvector(v * x.a)


def geo(g, lab=''):
    return [(lab + ' latitude', 'lat', g.latitude), (lab + ' longitude', 'ang', g.longitude), (lab + ' depth', 'len', g.z)]


def nvec(n, lab='', kind='E'):
    return [(lab + ' n-vector', kind, n.normal), (lab + ' depth of the n-vector', 'len', n.z)]


def conv(nv, x, P):
    A = P[0]
    n, p, g = A.to_nvector(), A.to_ecef_vector(), A.to_geo_point()
    return nvec(n) + geo(g) + [('p', 'pE', p.pvector), ('length', 'len', p.length), ('latitude in degrees', 'deg', g.latitude_deg)]


def local(d, lab):
    return [(lab, 'pL', d.pvector), (lab + ' length', 'len', d.length), (lab + ' azimuth', 'ang', d.azimuth),
            (lab + ' elevation', 'ang', d.elevation)]


def deltas(nv, x, P):
    A, B = P
    e = nv.delta_E(A, B)
    return [('delta_E', 'pE', e.pvector), ('length', 'len', e.length)] + local(nv.delta_N(A, B), 'delta_N') + \
        local(nv.delta_L(A, B, x.wa), 'delta_L')


def frames(nv, x, P):
    A, B = P
    d = B.to_ecef_vector() - A.to_ecef_vector()
    out = []
    for lab, fr in (('N', nv.FrameN(A)), ('L', nv.FrameL(A, x.wa)), ('B', nv.FrameB(A, x.wa, 0.1, 0.2))):
        out += local(d.change_frame(fr), lab) + [(lab + ' R_EN', 'M', fr.R_EN), (
            lab + ' Pvector', 'pE', fr.Pvector(x.q * x.a).to_ecef_vector().pvector)]
    return out


def sphere(nv, x, P):
    A, B = P
    s, az1, az2 = A.distance_and_azimuth(B, method='greatcircle')
    return [('distance', 'len', s), ('azimuth a', 'ang', az1), ('azimuth b', 'ang', az2)]


def displace(nv, x, P):
    A, = P
    B, az = A.displace(x.t * x.a, x.wa, method='greatcircle')
    C, azc = A.displace(x.t * x.a, x.wa, degrees=True)
    return geo(B, 'sphere') + [('sphere azimuth', 'ang', az)] + geo(C, 'ellipsoid') + [('ellipsoid azimuth', 'deg', azc)]


def ellipsoid(nv, x, P):
    A, B = P
    s, az1, az2 = A.distance_and_azimuth(B)
    return [('distance', 'len', s), ('azimuth a', 'ang', az1), ('azimuth b', 'ang', az2),
            ('exact', 'len', nv.GeoPath(A, B).track_distance(method='exact'))]


def lengths(nv, x, P):
    A, B = P
    path = nv.GeoPath(A, B)
    return [('track_distance', 'len', path.track_distance()), ('euclidean', 'len', path.track_distance(method='euclidean'))] + \
        nvec(path.interpolate(x.t), 'interpolated')


def cross(nv, x, P):
    A, B, C = P
    path = nv.GeoPath(A, B)
    return [('cross_track_distance', 'len', path.cross_track_distance(C)),
            ('cross_track_distance e', 'len', path.cross_track_distance(C, method='euclidean'))] + \
        geo(path.closest_point_on_great_circle(C), 'closest point')


def on(nv, x, P):
    A, B, C = P
    path = nv.GeoPath(A, B)
    return [('on_great_circle', 'bool', path.on_great_circle(C)), ('on_path', 'bool', path.on_path(C)),
            ('on_path exact', 'bool', path.on_path(C, method='exact'))]


def meets(nv, x, P):
    A, B, C, D = P
    return nvec(nv.GeoPath(A, B).intersect(nv.GeoPath(C, D)), 'intersection')


def mean(nv, x, P):
    return nvec(P[0].to_nvector().mean(), 'mean', 'E0')


OPS = dict(conv=conv, deltas=deltas, frames=frames, sphere=sphere, displace=displace, ellipsoid=ellipsoid, lengths=lengths,
           cross=cross, on=on, meets=meets, mean=mean)


def inputs(c):
    arr = c.get('N') is not None
    col, sh = ('N' if arr else 1), (('N',) if arr else ())
    d = dict(a=SemiAxis(), f=Flat(0.1), t=Real((), 0, 1), wa=Angle(()), q=Vec3(1, edges=()))
    for i, k in enumerate(c['kinds']):
        if k == 'g':
            d['lat%d' % i] = Real(sh, -0.45, 0.45, pi_units=True)
            d['lon%d' % i] = Angle(sh)
        else:
            d['%s%d' % (k, i)] = Unit(col, exclude=0)
        if k != 'p':
            d['z%d' % i] = Real(sh, -0.01, 0.01)
    return d


def call(nv, x, cfg):
    out = []
    for ax in 'eE':
        fr = nv.FrameE(a=x.a, f=x.f, axes=ax)
        out.append(OPS[cfg['op']](nv, x, [pos(nv, x, cfg, i, fr, ax) for i in range(len(cfg['kinds']))]))
    return out


def ensures(m, s, out, cfg):
    one, two = out
    one = [(l, 'plainvec' if k == 'pL' else k, v) for l, k, v in one]
    flat1, flat2 = [], []
    for (l, k, v1), (_, _, v2) in zip(one, two):
        if k == 'plainvec':
            v1, v2 = m.arr(v1), m.arr(v2)
            for i in range(3):
                flat1.append(('%s, component %d' % (l, i), 'len', v1[i]))
                flat2.append(('%s, component %d' % (l, i), 'len', v2[i]))
        else:
            flat1.append((l, k, v1))
            flat2.append((l, k, v2))
    for c in related(m, s, flat1, flat2, s.a, 3e-12):
        yield c


def vecof(m, s, cfg, i):
    k = cfg['kinds'][i]
    if k == 'g':
        return [m.cols(v, 0) for v in sp.lat_lon2n(m, 'E', s['lat%d' % i], s['lon%d' % i])]
    return [s['%s%d' % (k, i)][j] for j in range(3)]


def requires(m, s, cfg):
    out = []
    for i, k in enumerate(cfg['kinds']):
        if k == 'p':
            out.append(sp.outside_core(m, 'E', [v * s.a for v in vecof(m, s, cfg, i)], s.a, s.f))
    if cfg['op'] == 'cross':
        v = [vecof(m, s, cfg, i) for i in range(3)]
        d = sp.cross(sp.cross(v[0], v[1]), v[2])
        out.append(sp.dot(d, d) > 0)
    return out


def keep(m, s, cfg):
    v = [vecof(m, s, cfg, i) for i in range(len(cfg['kinds']))]
    for e in v:
        if any(float(q) < 1e-4 for q in np.ravel(e[1] * e[1] + e[2] * e[2])):
            return False
    for i in range(len(v)):
        for j in range(i):
            c = sp.cross(v[i], v[j])
            if any(float(q) < 1e-3 for q in np.ravel(sp.dot(c, c))):
                return False
    if len(v) > 2:
        c = sp.cross(v[0], v[1])
        d = sp.cross(c, v[2])
        q = [sp.dot(d, d)]
        if len(v) > 3:
            d = sp.cross(c, sp.cross(v[2], v[3]))
            q.append(sp.dot(d, d))
        if any(float(w) < 1e-4 for k in q for w in np.ravel(k)):
            return False
        if cfg['op'] == 'on' and any(1e-18 < abs(float(w)) < 1e-6 for w in np.ravel(sp.dot(c, v[2]))):
            return False
    if cfg['op'] == 'on':
        return False            # decided by proof only: thresholds of the order of the rounding errors
    if cfg['op'] == 'mean':
        t = [np.sum(v[0][i]) for i in range(3)]
        return float(sp.dot(t, t)) > 1e-2
    if cfg['op'] in ('displace',):
        # the azimuth at the end is determined no better than rounding over the displacement, or over the distance to the pole
        if not 1e-3 < float(s.t) < 0.5:
            return False
        for e in zip(*[np.ravel(q) for q in v[0]]):
            x, r = float(e[0]), float(np.hypot(float(e[1]), float(e[2])))
            end = abs(x * np.cos(float(s.t)) + r * np.cos(float(s.wa)) * np.sin(float(s.t)))
            if end > 1 - 1e-3:
                return False
        return True
    return True


def cfgs():
    out = []
    for op, ks in (('conv', 'gnp'), ('deltas', ('gg', 'nn', 'np')), ('frames', ('nn', 'gn')), ('sphere', ('gg', 'gn')),
                   ('displace', 'g'), ('ellipsoid', ('gg',)), ('lengths', ('gg', 'nn')), ('cross', ('nnn', 'ggn')),
                   ('on', ('nnn', 'ggg')), ('meets', ('nnnn',)), ('mean', 'ng')):
        for k in ks:
            for N in ((None, 'N') if op != 'mean' else ('N',)):
                out.append(dict(op=op, kinds=k, N=N))
    return out


FF = ['core.' + n for n in FN if n in ('lat_lon2n_E', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'n_EA_E_and_n_EB_E2p_AB_E',
                                       'n_EA_E_and_p_AB_E2n_EB_E', 'n_EA_E_and_n_EB_E2azimuth', 'n_EA_E_distance_and_azimuth2n_EB_E',
                                       'cross_track_distance', 'on_great_circle', 'on_great_circle_path', 'intersect', 'interpolate',
                                       'closest_point_on_great_circle', 'mean_horizontal_position', 'great_circle_normal')] + [
    'core.great_circle_distance', 'core.euclidean_distance', 'rotation.E_rotation', 'rotation.n_E2lat_lon', 'rotation.n_E2R_EN',
    'rotation.n_E_and_wa2R_EL']
OO = ['objects.GeoPoint', 'objects.Nvector', 'objects.ECEFvector', 'objects.GeoPath', 'objects.FrameE', 'objects.FrameN',
      'objects.FrameL', 'objects.FrameB', 'objects.delta_E', 'objects.delta_N', 'objects.delta_L']
CONTRACTS = [
    Contract('functions', FF, fn_inputs, fn_call, fn_ensures, [dict(fn=n, N=N, default=N == 3) for n in FN for N in ('N', 1, 3)],
             requires=fn_requires, keep=fn_keep, relational=True),
    Contract('objects', OO, inputs, call, ensures, cfgs(), requires=requires, keep=keep, stubs=STUBS, stub_pre=False,
             relational=True),
]
