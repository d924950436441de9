"""C15: a call with n columns is n calls with one column each."""
import itertools
from ..contract import *
from ..sym import SA, S
from .. import spec as sp
from .. import sym
from .. import term as tm

EXPLANATION = 'relational contracts: every function is run on all columns and on a single column (the generic column j for a ' \
    'symbolic number of columns, each column for three columns); the result for the column is the column of the result'

# name -> (inputs, f(nv, q) -> list of (label, kind, value))
# inputs: n, m (not on the pole), v vectors; lat, lon, any angles; z depth; t fraction; M rotation (built from three angles)
# kinds of results: v (3, n), s (n,), b (n,) booleans, M (3, 3, n), ang (n,) angles
FN = {}


def fn(name, ins, f, noise=1.0):
    FN[name] = (ins, f, noise)


A_E = dict(a='a', f='f')
fn('lat_lon2n_E', dict(p='lat', q='lon'), lambda nv, q: [('n', 'v', nv.lat_lon2n_E(q.p, q.q, q.R))])
fn('n_E2lat_lon', dict(n='n'), lambda nv, q: list(zip(('latitude', 'longitude'), ('s', 'ang'), nv.n_E2lat_lon(q.n, q.R))))
fn('n_EB_E2p_EB_E', dict(n='n', z='z', **A_E), lambda nv, q: [('p', 'v', nv.n_EB_E2p_EB_E(q.n, q.z * q.a, q.a, q.f, q.R) / q.a)])
fn('p_EB_E2n_EB_E', dict(v='v', **A_E), lambda nv, q: [
    (l, k, r / w) for l, k, r, w in zip(('n', 'depth'), 'vs', nv.p_EB_E2n_EB_E(q.v * q.a, q.a, q.f, q.R), (1, q.a))])
fn('n_EA_E_and_n_EB_E2p_AB_E', dict(n='n', k='n', z='z', y='z', **A_E),
   lambda nv, q: [('p', 'v', nv.n_EA_E_and_n_EB_E2p_AB_E(q.n, q.k, q.z * q.a, q.y * q.a, q.a, q.f, q.R) / q.a)])
fn('n_EA_E_and_p_AB_E2n_EB_E', dict(n='n', v='v', z='z', **A_E), lambda nv, q: [
    (l, k, r / w) for l, k, r, w in zip(('n', 'depth'), 'vs', nv.n_EA_E_and_p_AB_E2n_EB_E(q.n, q.v * q.a, q.z * q.a, q.a, q.f, q.R),
                                        (1, q.a))])
fn('n_EA_E_and_n_EB_E2azimuth', dict(n='m', k='n', **A_E),
   lambda nv, q: [('azimuth', 'ang', nv.n_EA_E_and_n_EB_E2azimuth(q.n, q.k, q.a, q.f, q.R))])
fn('n_EA_E_distance_and_azimuth2n_EB_E', dict(n='m', d='any', b='any'),
   lambda nv, q: [('n', 'v', nv.n_EA_E_distance_and_azimuth2n_EB_E(q.n, q.d, q.b, q.R))])
fn('n_E2R_EN', dict(n='n'), lambda nv, q: [('R_EN', 'M', nv.n_E2R_EN(q.n, q.R))])
fn('n_E_and_wa2R_EL', dict(n='m', b='any'), lambda nv, q: [('R_EL', 'M', nv.n_E_and_wa2R_EL(q.n, q.b, q.R))])
fn('great_circle_distance', dict(n='n', k='n', a='a'), lambda nv, q: [('distance', 's', nv.great_circle_distance(q.n, q.k, q.a) / q.a)])
fn('euclidean_distance', dict(n='n', k='n', a='a'), lambda nv, q: [('distance', 's', nv.euclidean_distance(q.n, q.k, q.a) / q.a)])
fn('great_circle_normal', dict(n='n', k='n'), lambda nv, q: [('normal', 'v', nv.great_circle_normal(q.n, q.k))])
fn('cross_track_distance', dict(n='n', k='n', u='n', a='a'), lambda nv, q: [
    (m, 's', nv.cross_track_distance((q.n, q.k), q.u, method=m, radius=q.a) / q.a) for m in ('greatcircle', 'euclidean')])
fn('on_great_circle', dict(n='n', k='n', u='n', a='a'), lambda nv, q: [('on', 'b', nv.on_great_circle((q.n, q.k), q.u, radius=q.a))])
fn('on_great_circle_path', dict(n='n', k='n', u='n', a='a'), lambda nv, q: [
    ('on', 'b', nv.on_great_circle_path((q.n, q.k), q.u, radius=q.a))])
fn('closest_point_on_great_circle', dict(n='n', k='n', u='n'),
   lambda nv, q: [('n', 'v', nv.closest_point_on_great_circle((q.n, q.k), q.u))])
fn('intersect', dict(n='n', k='n', u='n', v='n'), lambda nv, q: [('n', 'v', nv.intersect((q.n, q.k), (q.u, q.v)))])
fn('interpolate', dict(n='n', k='n', t='t'), lambda nv, q: [('n', 'v', nv.interpolate((q.n, q.k), q.t))])
fn('xyz2R', dict(x='any', y='any', z_='any'), lambda nv, q: [('R', 'M', nv.xyz2R(q.x, q.y, q.z_))])
fn('zyx2R', dict(x='any', y='any', z_='any'), lambda nv, q: [('R', 'M', nv.zyx2R(q.z_, q.y, q.x))])
fn('R2xyz', dict(A='mat'), lambda nv, q: list(zip('xyz', ('ang',) * 3, nv.R2xyz(q.A))))
fn('R2zyx', dict(A='mat'), lambda nv, q: list(zip('zyx', ('ang',) * 3, nv.R2zyx(q.A))))
fn('R_EL2n_E', dict(A='mat'), lambda nv, q: [('n', 'v', nv.R_EL2n_E(q.A))])
fn('R_EN2n_E', dict(A='mat'), lambda nv, q: [('n', 'v', nv.R_EN2n_E(q.A))])
fn('mdot', dict(A='mat', B='mat'), lambda nv, q: [('product', 'M', nv.mdot(q.A, q.B))])
fn('unit', dict(v='v'), lambda nv, q: [('unit', 'v', nv.unit(q.v)), ('unit, NaN', 'v', nv.unit(q.v, norm_zero_vector=np.nan))])
fn('deg', dict(x='any'), lambda nv, q: [(str(i), 's', v) for i, v in enumerate((nv.deg(q.x),) + nv.deg(q.x, -q.x))])
fn('rad', dict(x='any'), lambda nv, q: [(str(i), 's', v) for i, v in enumerate((nv.rad(q.x),) + nv.rad(q.x, -q.x))])

WHOLE = ('a', 'f')               # the same for all columns
SHAPES = dict(v=(3, 'N'), M=(3, 3, 'N'), s=('N',), b=('N',), ang=('N',))


class Q(object):
    pass


def cols_of(c):
    ins = FN[c['fn']][0]
    return [k for k in ins if ins[k] not in WHOLE and (c.get('cols') is None or k in c['cols'])]


def inputs(c):
    ins, vary = FN[c['fn']][0], cols_of(c)
    out = {}
    for k, d in ins.items():
        n = 'N' if k in vary else 1
        one = ('N',) if k in vary else ()
        if d in 'nm':
            out[k] = Unit(n, exclude={'e': 2, 'E': 0}[c['axes']] if d == 'm' else None)
        elif d == 'v':
            out[k] = Vec3(n, edges=((1.2, 0, 0), (0, -1, 0), (0.3, 0, 1)))
        elif d == 'mat':
            out[k] = Mat(n if n == 'N' else None)
        elif d == 'lat':
            out[k] = Real(one, -0.5, 0.5, pi_units=True)
        elif d == 'lon':
            out[k] = Angle(one)
        elif d == 'any':
            out[k] = AnyAngle(one)
        elif d == 'z':
            out[k] = Real(one, -0.01, 0.01)
        elif d == 't':
            out[k] = Real(one, 0, 1)
        else:
            out[k] = SemiAxis() if d == 'a' else Flat(0.1)
    return out


def column(v, i):
    """column i of an array, as an array with one column"""
    if isinstance(v, SA) and v.tg[-1] is not None:
        return SA(v.d, v.tg[:-1] + (None,))          # the generic column
    return v[..., i:i + 1]


def run(nv, x, cfg, vary, i=None):
    q = Q()
    ins = FN[cfg['fn']][0]
    for k, v in x.items():
        if k not in vary and ins[k] not in WHOLE:
            v = v[:, :, None] if ins[k] == 'mat' else v if ins[k] in 'nmv' else np.reshape(v, (1,))
        if i is not None and k in vary:
            v = column(v, i)
        setattr(q, k, v)
    q.R = nv.E_rotation(cfg['axes'])
    return FN[cfg['fn']][1](nv, q)


def call(nv, x, cfg):
    vary = cols_of(cfg)
    first = x[vary[0]]
    sym_n = isinstance(first, SA) and first.tg[-1] is not None
    n = 1 if sym_n else first.shape[-1]
    full, singles = run(nv, x, cfg, vary), [run(nv, x, cfg, vary, i) for i in range(n)]
    # the second entry serves the cross-check of the engine: the column that the generic one is compared with
    return full, singles[0 if n == 1 else tm.TAGCOL['j']], Columns(singles)


class Columns(object):
    def __init__(self, runs):
        self.runs = runs


def ensures(m, s, out, cfg):
    full, singles = out[0], out[2].runs
    vary = cols_of(cfg)
    sym_n = m.symbolic and cfg['N'] == 'N'
    for r, (lab, kind, v) in enumerate(full):
        v = m.arr(v)
        if kind == 'M' and cfg['N'] == 1:
            v = v.reshape(3, 3, 1)
        yield Shape(lab + ': shape', v, SHAPES[kind])
        for i, one in enumerate(singles):
            w = m.arr(one[r][2])
            if kind == 'M':
                w = w.reshape(3, 3, 1)
            yield Shape(lab + ': shape for a single column', w, SHAPES[kind][:-1] + (1,))
            name = lab + (': any column' if sym_n else ': column %d' % i if m.symbolic else ': column')
            c = v if sym_n else v[..., i:i + 1]
            if kind == 'b':
                yield Iff(name, c, w, near(m, s, cfg, i))
                continue
            yield Iff(name + ' (NaN)', m.isnan(c), m.isnan(w))
            nn = m.not_(m.isnan(c))
            tol = 0 if m.symbolic else 1e-11
            if kind == 'ang' and not m.symbolic:
                yield Implies(nn, Eq(name + ' (sine)', m.sin(c), m.sin(w), tol))
                yield Implies(nn, Eq(name + ' (cosine)', m.cos(c), m.cos(w), tol))
            else:
                yield Implies(nn, Eq(name, c, w, tol))


def near(m, s, cfg, i):
    return None if m.symbolic else m.true() | True        # thresholds: decided by proof only


def keep(m, s, cfg):
    """runtime companion: away from the points where rounding is amplified"""
    ins = FN[cfg['fn']][0]
    for k in ('n', 'k', 'u'):
        if ins.get(k) in ('n', 'm'):
            e = s[k]
            if any(0 < float(q) < 1e-4 for a in ((1, 2), (0, 1)) for q in np.ravel(e[a[0]] * e[a[0]] + e[a[1]] * e[a[1]])):
                return False
    if ins.get('v') == 'v':
        w = [s.v[i] for i in range(3)]
        if any(float(q) < 0.3 for q in np.ravel(sp.dot(w, w))):
            return False
        if 'n' in s:
            w = [s.v[i] + s.n[i] for i in range(3)]
            if any(float(q) < 0.3 for q in np.ravel(sp.dot(w, w))):
                return False
    if 'k' in s:
        c = sp.cross(s.n, s.k)
        if any(0 < float(q) < 1e-4 for q in np.ravel(sp.dot(c, c))):
            return False
        if 'u' in s:
            d = sp.cross(c, s.u)
            if any(0 < float(q) < 1e-4 for q in np.ravel(sp.dot(d, d))):
                return False
            if 'v' in s:
                d = sp.cross(s.u, s.v)
                e = sp.cross(c, d)
                if any(0 < float(q) < 1e-4 for q in np.ravel(sp.dot(e, e))):
                    return False
    return True


def cfgs():
    out = []
    for name, (ins, _, _) in FN.items():
        ks = [k for k in ins if ins[k] not in WHOLE]
        pats = [None] + ([k for k in ks] if len(ks) > 1 else [])
        for cols in pats:
            for N in ('N', 3) + ((1,) if cols is None else ()):
                c = dict(fn=name, N=N, axes='e' if N != 3 else 'E', cols=cols)
                if name == 'intersect' and N == 3 and cols:
                    c['thorough'] = True            # half a minute each: the paths of four runs
                out.append(c)
        # two or more arguments with n columns (quick: bounded companion only)
        for r in range(2, len(ks)):
            for cols in itertools.combinations(ks, r):
                out += [dict(fn=name, N=N, axes='E' if N != 3 else 'e', cols=cols, thorough=True) for N in ('N', 3)]
    return out


HOME = dict(n_E2lat_lon='rotation', n_E2R_EN='rotation', n_E_and_wa2R_EL='rotation', xyz2R='rotation', zyx2R='rotation',
            R2xyz='rotation', R2zyx='rotation', R_EL2n_E='rotation', R_EN2n_E='rotation', mdot='util', unit='util', deg='util',
            rad='util')
CONTRACTS = [
    Contract('columns', [HOME.get(n, 'core') + '.' + n for n in FN], inputs, call, ensures, cfgs(), keep=keep, relational=True, trials=0.4),
]
