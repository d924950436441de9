"""C26: single positions give scalars, n positions give n elements."""
from ..contract import *
from ..sym import SA
from .. import spec as sp

EXPLANATION = 'shape postconditions of every object-oriented conversion and query; the shapes of the functions they call are ' \
    'their own postconditions (C01-C14)'
STUBS = ['isclose', 'allclose', 'lat_lon2n_E', 'n_E2lat_lon', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'n_E2R_EN', 'n_E_and_wa2R_EL', 'zyx2R',
         'great_circle_distance', 'euclidean_distance', 'n_EA_E_distance_and_azimuth2n_EB_E', 'cross_track_distance',
         'on_great_circle_path', 'closest_point_on_great_circle', '_Geodesic']


def inputs(c):
    """kinds of the positions: g (angles), n (n-vector), p (ECEF vector); many: which of them are arrays"""
    d = dict(a=SemiAxis(), f=Flat(0.1), t=Real((), 0, 1), wa=Angle(()))
    pole = {'e': 2, 'E': 0}[c['axes']]
    for i, k in enumerate(c['kinds']):
        arr = c['many'][i] == 'y'
        sh = ('N',) if arr else ()
        if k == 'g':
            d['lat%d' % i] = Real(sh, -0.45, 0.45, pi_units=True)
            d['lon%d' % i] = Angle(sh)
        elif k == 'n':
            d['n%d' % i] = Unit('N' if arr else 1, exclude=pole)
        else:
            d['p%d' % i] = Unit('N' if arr else 1, exclude=pole)
        d['z%d' % i] = Real(sh if c.get('z', 'cols') == 'cols' else (), -0.01, 0.01)
    return d


def pos(nv, x, cfg, i, fr):
    k = cfg['kinds'][i]
    if k == 'g':
        return fr.GeoPoint(x['lat%d' % i], x['lon%d' % i], x['z%d' % i] * x.a)
    if k == 'n':
        return fr.Nvector(x['n%d' % i], x['z%d' % i] * x.a)
    return fr.ECEFvector(x['p%d' % i] * x.a)


# operation -> list of (label, what, value): what is 'q' (a quantity) or 'o' (a position or vector object)
def conv(nv, x, P):
    A = P[0]
    n, p, g = A.to_nvector(), A.to_ecef_vector(), A.to_geo_point()
    out = [('itself', 'o', A), ('to_nvector', 'o', n), ('to_ecef_vector', 'o', p), ('to_geo_point', 'o', g),
           ('n to p', 'o', n.to_ecef_vector()), ('n to g', 'o', n.to_geo_point()), ('g to n', 'o', g.to_nvector()),
           ('g to p', 'o', g.to_ecef_vector()), ('p to n', 'o', p.to_nvector()), ('p to g', 'o', p.to_geo_point()),
           ('length', 'q', p.length)]
    for lab, o in (('', g), (' by p', p.to_geo_point())):
        out += [('latitude' + lab, 'q', o.latitude), ('longitude' + lab, 'q', o.longitude), ('z' + lab, 'q', o.z),
                ('latitude_deg' + lab, 'q', o.latitude_deg), ('longitude_deg' + lab, 'q', o.longitude_deg)]
        out += [('latlon[%d]%s' % (i, lab), 'q', v) for i, v in enumerate(o.latlon)]
        out += [('latlon_deg[%d]%s' % (i, lab), 'q', v) for i, v in enumerate(o.latlon_deg)]
    return out


def vec(lab, d):
    return [(lab, 'o', d), (lab + ' length', 'q', d.length), (lab + ' azimuth', 'q', d.azimuth), (lab + ' azimuth_deg', 'q', d.azimuth_deg),
            (lab + ' elevation', 'q', d.elevation), (lab + ' elevation_deg', 'q', d.elevation_deg)]


def deltas(nv, x, P):
    A, B = P
    e = nv.delta_E(A, B)
    out = [('delta_E', 'o', e), ('delta_E length', 'q', e.length), ('A + delta', 'o', A.to_ecef_vector() + e),
           ('-delta', 'o', -e), ('-delta length', 'q', (-e).length), ('-delta azimuth', 'q', (-e).azimuth), ('sum to n', 'o', (A.to_ecef_vector() + e).to_nvector()), ('e - e', 'o', e - e)]
    for lab, d in (('delta_N', nv.delta_N(A, B)), ('delta_to', A.delta_to(B)), ('delta_L', nv.delta_L(A, B, x.wa))):
        out += vec(lab, d) + [(lab + ' to E', 'o', d.to_ecef_vector())]
    return out


def frames(nv, x, P):
    A, B = P
    d = B.to_ecef_vector() - A.to_ecef_vector()
    out = []
    for lab, fr in (('N', nv.FrameN(A)), ('L', nv.FrameL(A, x.wa)), ('B', nv.FrameB(A, x.wa, 0.1, 0.2))):
        v = d.change_frame(fr)
        out += vec(lab, v) + [(lab + ' Pvector', 'o', fr.Pvector(v.pvector))]
    return out


def lengths(nv, x, P):
    A, B = P
    path = nv.GeoPath(A, B)
    return [('track_distance', 'q', path.track_distance()), ('track_distance e', 'q', path.track_distance(method='euclidean')),
            ('track_distance r', 'q', path.track_distance(radius=path._get_average_radius())),
            ('mean radius', 'q', path._get_average_radius()), ('interpolate', 'o', path.interpolate(x.t)),
            ('interpolate to g', 'o', path.interpolate(x.t).to_geo_point())]


def ellipsoid(nv, x, P):
    A, B = P
    path = nv.GeoPath(A, B)
    return [('exact', 'q', path.track_distance(method='exact')), ('ellipsoidal', 'q', path.track_distance(method='ellipsoidal'))] + [
        ('inverse %s[%d]' % (k, i), 'q', v) for k, r in (
            ('rad', A.distance_and_azimuth(B)), ('deg', A.distance_and_azimuth(B, long_unroll=True, degrees=True)))
        for i, v in enumerate(r)]


def sphere(nv, x, P):
    A, B = P
    return [('sphere %s[%d]' % (k, i), 'q', v) for k, r in (
        ('rad', A.distance_and_azimuth(B, method='greatcircle')), ('deg', A.distance_and_azimuth(B, degrees=True, method='greatcircle')))
        for i, v in enumerate(r)]


def displace(nv, x, P):
    A, = P
    out = []
    for k, m, dg in (('ellipsoid', 'ellipsoid', False), ('ellipsoid deg', 'ellipsoid', True), ('sphere', 'greatcircle', False),
                     ('sphere deg', 'greatcircle', True)):
        B, az = A.displace(1000.0, x.wa, degrees=dg, method=m)
        out += [(k, 'o', B), (k + ' azimuth', 'q', az), (k + ' latitude', 'q', B.latitude)]
    return out


def direct(nv, x, P):
    A, B = P
    fr = A.frame
    out = []
    for k, dg in (('rad', False), ('deg', True)):
        out += [('direct %s[%d]' % (k, i), 'q', v) for i, v in enumerate(fr.direct(A.latitude, A.longitude, x.wa, 1e3, A.z, degrees=dg))]
        out += [('inverse %s[%d]' % (k, i), 'q', v) for i, v in enumerate(fr.inverse(A.latitude, A.longitude, B.latitude, B.longitude,
                                                                                    A.z, degrees=dg))]
    return out


def cross(nv, x, P):
    A, B, C = P
    path = nv.GeoPath(A, B)
    d = path.closest_point_on_great_circle(C)
    return [('cross_track_distance', 'q', path.cross_track_distance(C)),
            ('cross_track_distance e', 'q', path.cross_track_distance(C, method='euclidean')),
            ('cross_track_distance r', 'q', path.cross_track_distance(C, radius=path._get_average_radius())),
            ('on_great_circle', 'q', path.on_great_circle(C)), ('on_path', 'q', path.on_path(C)),
            ('closest_point_on_great_circle', 'o', d), ('closest latitude', 'q', d.latitude)]


def exact(nv, x, P):
    A, B, C = P
    return [('on_path exact', 'q', nv.GeoPath(A, B).on_path(C, method='exact'))]


def closest(nv, x, P):
    A, B, C = P
    d = nv.GeoPath(A, B).closest_point_on_path(C)
    return [('closest_point_on_path', 'o', d), ('closest latitude', 'q', d.latitude), ('closest z', 'q', d.z)]


def meets(nv, x, P):
    A, B, C, D = P
    c = nv.GeoPath(A, B).intersect(nv.GeoPath(C, D))
    return [('intersect', 'o', c), ('intersect to g', 'o', c.to_geo_point()), ('intersect to p', 'o', c.to_ecef_vector())]


def mean(nv, x, P):
    A, = P
    n = A.to_nvector().mean()
    return [('mean', '1', n), ('mean to g', '1', n.to_geo_point()), ('mean latitude', '1q', n.to_geo_point().latitude)]


OPS = dict(conv=conv, deltas=deltas, frames=frames, lengths=lengths, ellipsoid=ellipsoid, sphere=sphere, displace=displace,
           direct=direct, cross=cross, exact=exact, closest=closest, meets=meets, mean=mean)


def body(o):
    """the array that carries the elements of an object"""
    for k in ('pvector', 'normal', 'latitude'):
        if hasattr(o, k):
            return getattr(o, k), k
    raise AttributeError('no coordinates')


def call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])
    P = [pos(nv, x, cfg, i, fr) for i in range(len(cfg['kinds']))]
    out = []
    for lab, what, v in OPS[cfg['op']](nv, x, P):
        if what in ('q', '1q'):
            out.append((lab, what, v, None))
        else:
            b, k = body(v)
            out.append((lab, what, b, (k, v.scalar)))
    return out


class Count(object):
    """an array of n elements (a scalar counts as one element)"""


def ensures(m, s, out, cfg):
    single = 'y' not in cfg['many']
    N = cfg.get('N')
    for lab, what, v, o in out:
        one = single or what in ('1', '1q')
        if o is None:
            if one:
                yield Shape(lab + ': scalar', v, ())
            elif N == 1 and 'p' not in cfg['kinds']:
                yield Shape(lab + ': one element', v, (1,))
            elif N == 1:
                yield Check(lab + ': one element', np.shape(v) in ((), (1,)) or getattr(v, 'shape', None) in ((), (1,)),
                            'shape %r' % (getattr(v, 'shape', np.shape(v)),))
            else:
                yield Shape(lab + ': n elements', v, ('N',))
            continue
        k, scalar = o
        scalar = bool(scalar)
        if one:
            yield Check(lab + ': scalar', scalar, '%s.scalar is %r' % (lab, scalar))
            yield Shape(lab + ': one position', v, () if k == 'latitude' else (3, 1))
        else:
            # a (3, 1) array alone does not tell a single vector from an array of one
            if N != 1 or not ('p' in cfg['kinds'] or lab.endswith(' Pvector')):
                yield Check(lab + ': not scalar', not scalar, '%s.scalar is %r' % (lab, scalar))
                yield Shape(lab + ': n positions', v, ('N',) if k == 'latitude' else (3, 'N'))
            else:
                yield Check(lab + ': one element', v.shape in ((), (1,), (3, 1)), 'shape %r' % (v.shape,))


def requires(m, s, cfg):
    """the positions of a path differ and the third is not at the pole of their great circle"""
    if cfg['op'] not in ('cross', 'closest', 'meets'):
        return []
    v = [vecof(m, s, cfg, i) for i in range(len(cfg['kinds']))]
    c = sp.cross(v[0], v[1])
    out = [sp.dot(c, c) > 0]
    if cfg['op'] == 'meets':
        d = sp.cross(v[2], v[3])
        e = sp.cross(c, d)
        out += [sp.dot(d, d) > 0, sp.dot(e, e) > 0]
    else:
        e = sp.cross(c, v[2])
        out += [sp.dot(e, e) > 0]
    return out


def vecof(m, s, cfg, i):
    k = cfg['kinds'][i]
    if k == 'g':
        return [m.cols(v, 0) for v in sp.lat_lon2n(m, cfg['axes'], s['lat%d' % i], s['lon%d' % i])]
    return [s['%s%d' % (k, i)][j] for j in range(3)]


def cfgs():
    out = []
    def add(op, kinds, many, N, **kw):
        out.append(dict(op=op, kinds=kinds, many=many, N=N, axes='eE'[len(out) % 2], **kw))
    for k in 'gnp':
        add('conv', k, 'n', None)
        for N in ('N', 1, 3):
            add('conv', k, 'y', N)
    add('conv', 'n', 'y', 'N', z='one')
    add('conv', 'g', 'y', 3, z='one')
    for op, ks in (('deltas', ('gg', 'nn', 'pp', 'gn', 'np')), ('frames', ('gg', 'nn', 'ng')), ('lengths', ('gg', 'nn', 'gn', 'pp')),
                   ('ellipsoid', ('gg', 'gn')), ('sphere', ('gg', 'gn')), ('direct', ('gg',))):
        for k in ks:
            add(op, k, 'nn', None)
            for N, many in (('N', 'yy'), (3, 'yy'), (1, 'yy'), ('N', 'ny'), ('N', 'yn')):
                if op == 'direct' and many == 'ny':
                    continue                 # direct uses the first position only
                add(op, k, many, N)
    add('displace', 'g', 'n', None)
    for N in ('N', 1, 3):
        add('displace', 'g', 'y', N)
    for op in ('cross', 'exact'):
        for k in ('nnn', 'ggg'):
            add(op, k, 'nnn', None)
            for N, many in (('N', 'yyy'), (3, 'yyy'), (1, 'yyy'), ('N', 'nny'), (3, 'nny'), ('N', 'yyn')):
                add(op, k, many, N)
    for k in ('nnn', 'ggg', 'gng'):
        add('closest', k, 'nnn', None)
    for k in ('nnnn', 'gggg'):
        add('meets', k, 'nnnn', None)
        for N in ('N', 3, 1):
            add('meets', k, 'yyyy', N)
    for k in 'ngp':
        add('mean', k, 'n', None)
        for N in ('N', 3):
            add('mean', k, 'y', N)
    return out


FUN = ['objects.GeoPoint', 'objects.Nvector', 'objects.ECEFvector', 'objects.Pvector', 'objects.GeoPath', 'objects.FrameE',
       'objects.FrameN', 'objects.FrameL', 'objects.FrameB', 'objects.delta_E', 'objects.delta_N', 'objects.delta_L']
CONTRACTS = [Contract('scalars', FUN, inputs, call, ensures, cfgs(), requires=requires, stubs=STUBS, stub_pre=False, trials=0.4)]
