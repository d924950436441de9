"""Contract stubs: inside a caller under verification, a callee is replaced by its contract.

Each stub requires the callee's precondition (an obligation of the caller), and returns the value the
callee's postcondition determines (the specification function, or an uninterpreted function when the
postcondition is implicit).  The contracts used here are themselves discharged against the bodies by
the property named in CONTRACT_OF.
"""
import inspect
import numpy as np
from . import term as tm
from . import sym
from . import spec as sp
from .sym import S, SA, stack

CONTRACT_OF = {
    'lat_lon2n_E': 'C01', 'n_E2lat_lon': 'C01', 'n_EB_E2p_EB_E': 'C02', 'p_EB_E2n_EB_E': 'C03', 'n_E2R_EN': 'C06',
    'n_E_and_wa2R_EL': 'C06', 'zyx2R': 'C05', 'xyz2R': 'C05', 'great_circle_distance': 'C07',
    'euclidean_distance': 'C07', 'n_EA_E_distance_and_azimuth2n_EB_E': 'C08', 'cross_track_distance': 'C11',
    'great_circle_normal': 'C11', 'mdot': 'C24', 'intersect': 'C10', 'closest_point_on_great_circle': 'C13',
    'on_great_circle_path': 'C12', '_Geodesic': 'trusted (geographiclib)', 'interp1d': 'trusted (scipy)',
    'savgol_filter': 'trusted (scipy)', 'isclose': 'C21', 'allclose': 'C21',
}


def ctx():
    from .verify import StubContext
    return StubContext.current


def axes_const(R):
    """3x3 nested list of the rotation argument"""
    if R is None:
        return sp.AXES['e']
    if isinstance(R, SA):
        return [[R[i, j] for j in range(3)] for i in range(3)]
    R = np.asarray(R)
    return [[float(R[i, j]) for j in range(3)] for i in range(3)]


def _cols(v):
    """list of 3 arrays (n,) or () -> (3, n)"""
    out = S(sym_vec(v))
    return out if out.ndim > 1 else out.reshape(3, 1)


def sym_vec(xs):
    ds, tg = sym.bcast([S(x) for x in xs])
    return stack([SA(d.copy(), tg) for d in ds], 0)


def sym_mat(M):
    flat = [x for r in M for x in r]
    ds, tg = sym.bcast([S(x) for x in flat])
    items = [SA(d.copy(), tg) for d in ds]
    return stack([stack(items[3 * i:3 * i + 3], 0) for i in range(3)], 0)


def as_sa(x):
    return x if isinstance(x, SA) or not isinstance(x, (np.ndarray, list)) else S(np.asarray(x, dtype=float))


def need_3n(name, n):
    if not isinstance(n, SA) or n.ndim != 2 or n.shape[0] != 3:
        raise ValueError('%s: argument of shape %r where the contract requires (3, n)' % (
            name, getattr(n, 'shape', type(n).__name__)))


def unit_pre(name, n):
    need_3n(name, n)
    ctx().require(name + ' (unit n-vector)', sym.ew(sym.R2(tm.eq), sp.dot(n, n), S(1)))


def numeric(x):
    return x if isinstance(x, SA) else S(np.asarray(x, dtype=float) if not isinstance(x, (int, float)) else x)


def key(*arrs):
    return tuple(tuple(t.id for t in S(a).d.reshape(-1)) for a in arrs)


# ------------------------------------------------------------------------------------ stubs
def s_lat_lon2n_E(latitude, longitude, R_Ee=None):
    lat, lon = numeric(latitude), numeric(longitude)
    back = ctx().__dict__.get('ll_of', {}).get(key(lat, lon, axes_const(R_Ee)))
    if back is not None:
        return back.copy()          # lat_lon2n_E inverts n_E2lat_lon (C01)
    return _cols(sp.lat_lon2n(ctx().m, axes_const(R_Ee), lat, lon))


def _same(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def s_n_E2lat_lon(n_E, R_Ee=None):
    unit_pre('n_E2lat_lon', n_E)
    lat, lon = sp.n2lat_lon(ctx().m, axes_const(R_Ee), n_E)
    ctx().__dict__.setdefault('ll_of', {})[key(lat, lon, axes_const(R_Ee))] = n_E
    return lat, lon


def s_n_EB_E2p_EB_E(n_EB_E, depth=0, a=6378137, f=1.0 / 298.257223563, R_Ee=None):
    unit_pre('n_EB_E2p_EB_E', n_EB_E)
    c = ctx()
    R = axes_const(R_Ee)
    depth = numeric(depth)
    back = c.__dict__.get('n_of', {}).get(key(n_EB_E, depth, a, f))
    if back is not None:
        return back.copy()          # postcondition of p_EB_E2n_EB_E (C03)
    p = _cols(sp.n2p_unit(c.m, R, n_EB_E, depth, numeric(a), numeric(f)))
    log = c.__dict__.setdefault('p_of', {})
    log[key(p, a, f)] = (n_EB_E, depth)
    return p


def s_p_EB_E2n_EB_E(p_EB_E, a=6378137, f=1.0 / 298.257223563, R_Ee=None):
    need_3n('p_EB_E2n_EB_E', p_EB_E)
    c = ctx()
    R = axes_const(R_Ee)
    hit = c.__dict__.get('p_of', {}).get(key(p_EB_E, a, f))
    if hit is not None:
        # postcondition of p_EB_E2n_EB_E (C03): inverse of the forward conversion
        n, z = hit
        for cond in sp.invertible(c.m, R, n, z, numeric(a), numeric(f)):
            c.require('p_EB_E2n_EB_E (above the evolute, outside the centre)', cond)
        z = S(z)
        if z.ndim == 0 or not _same(z.shape, n.shape[1:]):
            z = sym.ew(sym.R2(tm.add), z, n[0] * 0)
        return n.copy(), z
    n, z = sp.p2n(c.m, R, p_EB_E, numeric(a), numeric(f))
    if c.__dict__.get('p2n_facts'):
        # postconditions proved by C03: unit length, and the forward conversion gives the position back
        c.require('p_EB_E2n_EB_E (outside the centre)', sp.outside_core(c.m, R, p_EB_E, numeric(a), numeric(f)))
        c.assume(sym.ew(sym.R2(tm.eq), sp.dot(n, n), S(1)))
        c.__dict__.setdefault('n_of', {})[key(_cols(n), z, a, f)] = p_EB_E
    return _cols(n), z


def s_isclose(a, b, rtol=1e-09, atol=0.0, equal_nan=False):
    m = ctx().m
    a, b, rtol, atol = map(numeric, (a, b, rtol, atol))
    out = m.abs(a - b) <= m.maximum(atol, rtol * m.maximum(m.abs(a), m.abs(b)))
    if equal_nan:
        out = out | (sym.TABLE['isnan'](a) & sym.TABLE['isnan'](b))
    return out


def s_allclose(a, b, rtol=1e-07, atol=1e-14, equal_nan=False):
    return sym.TABLE['all'](s_isclose(a, b, rtol, atol, equal_nan))


def s_n_E2R_EN(n_E, R_Ee=None):
    unit_pre('n_E2R_EN', n_E)
    return sym.TABLE['squeeze'](sym_mat(sp.R_EN(ctx().m, axes_const(R_Ee), n_E)))


def s_n_E_and_wa2R_EL(n_E, wander_azimuth, R_Ee=None):
    unit_pre('n_E_and_wa2R_EL', n_E)
    R = axes_const(R_Ee)
    e = sp.to_e(R, n_E)
    ctx().require('n_E_and_wa2R_EL (not at a pole)', e[1] * e[1] + e[2] * e[2] > 0)
    return sym.TABLE['squeeze'](sym_mat(sp.R_EL(ctx().m, R, n_E, numeric(wander_azimuth))))


def _euler(f, a, b, c):
    a, b, c = [numeric(v) for v in (a, b, c)]
    a, b, c = [v if v.ndim else v.reshape(1) for v in (a, b, c)]
    return sym.TABLE['squeeze'](sym_mat(f(ctx().m, a, b, c)))


def s_zyx2R(z, y, x):
    return _euler(sp.zyx, z, y, x)


def s_xyz2R(x, y, z):
    return _euler(sp.xyz, x, y, z)


def s_great_circle_distance(n_EA_E, n_EB_E, radius=6371009.0):
    need_3n('great_circle_distance', n_EA_E)
    need_3n('great_circle_distance', n_EB_E)
    return sp.gc_angle(ctx().m, n_EA_E, n_EB_E) * numeric(radius)


def s_euclidean_distance(n_EA_E, n_EB_E, radius=6371009.0):
    need_3n('euclidean_distance', n_EA_E)
    need_3n('euclidean_distance', n_EB_E)
    return sp.norm(ctx().m, n_EB_E - n_EA_E) * numeric(radius)


def s_n_EA_E_distance_and_azimuth2n_EB_E(n_EA_E, distance_rad, azimuth, R_Ee=None):
    unit_pre('n_EA_E_distance_and_azimuth2n_EB_E', n_EA_E)
    c = ctx()
    m = c.m
    R = sp.R_EN(m, axes_const(R_Ee), n_EA_E)
    d, az = numeric(distance_rad), numeric(azimuth)
    nB = _cols([n_EA_E[i] * m.cos(d) + (R[i][0] * m.cos(az) + R[i][1] * m.sin(az)) * m.sin(d) for i in range(3)])
    c.assume(sym.ew(sym.R2(tm.eq), sp.dot(nB, nB), S(1)))
    return nB


def s_cross_track_distance(path, n_EB_E, method='greatcircle', radius=6371009.0):
    for n in (path[0], path[1], n_EB_E):
        need_3n('cross_track_distance', n)
    kind = 'e' if method[0].lower() == 'e' else 'g'
    v = [x[i] for x in (path[0], path[1], n_EB_E) for i in range(3)]
    return ctx().m.uf('ctd_' + kind, *v) * numeric(radius)


def s_closest_point_on_great_circle(path, n_EB_E):
    for n in (path[0], path[1], n_EB_E):
        need_3n('closest_point_on_great_circle', n)
    m = ctx().m
    c = sp.cross(path[0], path[1])
    q = sp.dot(c, c)
    g = [n_EB_E[i] * q - sp.dot(c, n_EB_E) * c[i] for i in range(3)]
    L = sp.norm(m, g)
    ctx().require('closest_point_on_great_circle (not at the pole of the great circle)', L > 0)
    return _cols([x / L for x in g])


def s_on_great_circle_path(path, n_EB_E, radius=6371009.0, atol=1e-8):
    for n in (path[0], path[1], n_EB_E):
        need_3n('on_great_circle_path', n)
    v = [x[i] for x in (path[0], path[1], n_EB_E) for i in range(3)]
    return ctx().m.uf('ogcp', *(v + [numeric(radius), numeric(atol)])) > 0


def _ctd_num(kind):
    def f(*v):
        c = sp.cross(v[:3], v[3:6])
        L = sp.mpmath.sqrt(sp.dot(c, c))
        if L == 0:
            return sp.mpmath.nan
        g = -sp.dot(c, v[6:9]) / L
        return g if kind == 'e' else sp.mpmath.asin(max(-1, min(1, g)))
    return f


def _ogcp_num(*v):
    A, B, n, r, t = v[:3], v[3:6], v[6:9], v[9], v[10]
    d = abs(_ctd_num('g')(*v[:9])) * r
    a, b, c = sp.dot(n, A), sp.dot(n, B), sp.dot(A, B)
    return sp.mpf(1 if d <= t and a >= c and b >= c and a + b >= 0 else -1)


for _k in 'eg':
    tm.UF_IMPL['uf:ctd_' + _k] = _ctd_num(_k)
tm.UF_IMPL['uf:ogcp'] = _ogcp_num


# ---- only that the result is determined by the arguments (contracts about equality and state)
def _tag(R):
    return [k for k, v in sp.AXES.items() if axes_const(R) == v][0]


def _opaque(name, args):
    m = ctx().m
    return sym.TABLE['squeeze'](sym_mat([[m.uf('%s_%d%d' % (name, i, j), *args) for j in range(3)] for i in range(3)]))


def a_n_E2R_EN(n_E, R_Ee=None):
    need_3n('n_E2R_EN', n_E)
    return _opaque('R_EN_' + _tag(R_Ee), [n_E[i] for i in range(3)])


def a_n_E_and_wa2R_EL(n_E, wander_azimuth, R_Ee=None):
    need_3n('n_E_and_wa2R_EL', n_E)
    return _opaque('R_EL_' + _tag(R_Ee), [n_E[i] for i in range(3)] + [numeric(wander_azimuth)])


def a_zyx2R(z, y, x):
    a = [numeric(v) for v in (z, y, x)]
    return _opaque('zyx', [v if v.ndim else v.reshape(1) for v in a])


def _mat_num(f, i, j):
    def g(*v):
        from .contract import NumMath
        return sp.mpf(np.ravel(f(NumMath(1), v)[i][j])[0])
    return g


for _i in range(3):
    for _j in range(3):
        for _a in 'eE':
            tm.UF_IMPL['uf:R_EN_%s_%d%d' % (_a, _i, _j)] = _mat_num(lambda m, v, a=_a: sp.R_EN(m, a, [m.c(q) for q in v]), _i, _j)
            tm.UF_IMPL['uf:R_EL_%s_%d%d' % (_a, _i, _j)] = _mat_num(lambda m, v, a=_a: sp.R_EL(
                m, a, [m.c(q) for q in v[:3]], m.c(v[3])), _i, _j)
        tm.UF_IMPL['uf:zyx_%d%d' % (_i, _j)] = _mat_num(lambda m, v: sp.zyx(m, *[m.c(q) for q in v]), _i, _j)


class GeoStub(object):
    """geographiclib.geodesic.Geodesic: abstract, specified by its documented interface"""
    STANDARD = 1929
    LONG_UNROLL = 32768

    def __init__(self, a, f):
        self.a, self.f = a, f

    def _call(self, kind, names, args, outmask):
        c = ctx()
        unroll = 1 if (outmask & self.LONG_UNROLL) == self.LONG_UNROLL else 0
        if (outmask & self.STANDARD) != self.STANDARD:
            raise ValueError('geographiclib: requested results not in outmask %r' % (outmask,))
        ar = [numeric(x) for x in (self.a, self.f) + args]
        log = c.__dict__.setdefault('geo', [])
        # unrolling concerns the longitude only
        out = {n: c.m.uf('geo_%s_%s_%d' % (kind, n, unroll if n == 'lon2' else 0), *ar) for n in names}
        if kind == 'inv':
            # the distance is symmetric (the azimuths of the exchanged problem are not specified further)
            for k, other, res in log:
                if k == 'inv' and (same(other[:2] + other[4:] + other[2:4], ar) or same(other, ar)):
                    out['s12'] = res['s12']
                    break
            log.append((kind, ar, out))
        for n, v in out.items():
            if n == 's12':
                c.assume(v >= 0)
            elif n != 'lon2' or not unroll:
                h = 90 if n == 'lat2' else 180
                c.assume(v <= h)
                c.assume(v >= -h)
        if kind == 'dir' and not unroll:
            # Direct inverts Inverse: same point (longitude modulo a turn) and azimuth
            for k, o, res in log:
                if k == 'inv' and same(o[:4] + [res['azi1'], res['s12']], ar):
                    c.assume(sym.ew(sym.R2(tm.eq), out['lat2'], o[4]))
                    c.assume(sym.ew(sym.R2(tm.eq), out['azi2'], res['azi2']))
                    d = (out['lon2'] - o[5]) * c.m.pi / 180
                    c.assume(sym.ew(sym.R2(tm.eq), c.m.sin(d), S(0)))
                    c.assume(sym.ew(sym.R2(tm.eq), c.m.cos(d), S(1)))
        return out

    def Inverse(self, lat1, lon1, lat2, lon2, outmask=1929):
        return self._call('inv', ('s12', 'azi1', 'azi2'), (lat1, lon1, lat2, lon2), outmask)

    def Direct(self, lat1, lon1, azi1, s12, outmask=1929):
        return self._call('dir', ('lat2', 'lon2', 'azi2'), (lat1, lon1, azi1, s12), outmask)


def same(xs, ys):
    """equal terms (as rational functions)"""
    from .alg import Alg
    from .prove import rsub
    al = Alg(())
    for x, y in zip(xs, ys):
        for p, q in zip(S(x).d.reshape(-1), S(y).d.reshape(-1)):
            if p is q:
                continue
            try:
                if rsub(al.rat(p), al.rat(q)).num:
                    return False
            except Exception:
                return False
    return True


def _geo_num(kind, name, unroll):
    def f(*v):
        from geographiclib.geodesic import Geodesic
        v = [float(x) for x in v]
        g = Geodesic(v[0], v[1])
        mask = Geodesic.STANDARD | (Geodesic.LONG_UNROLL if unroll else 0)
        r = (g.Inverse if kind == 'inv' else g.Direct)(*v[2:], outmask=mask)
        return sp.mpf(float(r[name]))
    return f


for _k, _ns in (('inv', ('s12', 'azi1', 'azi2')), ('dir', ('lat2', 'lon2', 'azi2'))):
    for _n in _ns:
        for _u in (0, 1):
            tm.UF_IMPL['uf:geo_%s_%s_%d' % (_k, _n, _u)] = _geo_num(_k, _n, _u)


# ---- scipy (trusted): interpolation along time and smoothing, row by row
def _rows(y, axis):
    """the rows of an array along an axis (0 or the last)"""
    y = S(y)
    if y.ndim == 1:
        return [y]
    if y.ndim != 2 or axis not in (0, 1, -1):
        raise sym.Unsupported('interpolation of an array with %d axes' % y.ndim)
    y = y.T if axis == 0 else y
    if y.tg[0] is not None:
        raise sym.Unsupported('interpolation across the columns')
    return [y[i] for i in range(y.shape[0])]


def _row_key(row):
    """names of a row: arguments for a concrete number of samples, the generic term otherwise"""
    if row.tg[0] is None:
        return '', [SA(row.d[i], ()) if isinstance(row.d[i], np.ndarray) else S(row.d[i]) for i in range(row.d.shape[0])]
    return ':%d' % row.d.reshape(-1)[0].id, []


def track_uf(name, row, t, q):
    """the value of a function of a row of samples, its times and a query time"""
    rn, ra = _row_key(S(row))
    tn, ta = _row_key(S(t))
    return ctx().m.uf('g_' + name + rn + tn, q, *(ra + ta))


class InterpStub(object):
    """scipy.interpolate.interp1d as documented: row by row; for the linear kind on the chord between the bracketing samples;
    exactly the samples at the sample times; outside of the times the fill value (or an error)"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        self.t, self.y, self.kind, self.axis = S(x), S(y), kind, axis
        self.rows = _rows(y, axis)
        if any(not _same(r.shape, self.t.shape) for r in self.rows):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        self.extrapolate = isinstance(fill_value, str)
        if self.extrapolate and (fill_value != 'extrapolate' or bounds_error):
            raise ValueError('fill_value')
        self.fill = fill_value
        self.error = bounds_error if bounds_error is not None else not self.extrapolate

    def __call__(self, q):
        q = S(q)
        m = ctx().m
        lo, hi = span(self.t)
        inside = m.and_(q >= lo, q <= hi)
        if self.error and sym.f_any(m.not_(inside)):
            raise ValueError('A value in x_new is outside the interpolation range.')
        out = []
        for row in self.rows:
            v = value(row, self.t, q, self.kind)
            if not self.extrapolate:
                v = m.where(inside, v, numeric(self.fill))
            else:
                v = m.where(inside, v, track_uf('extrapolate_%s' % self.kind, row, self.t, q))
            out.append(v)
        if self.y.ndim == 1:
            return out[0]
        if q.ndim > 1:
            raise sym.Unsupported('array of query times with two axes')
        r = stack(out, 0)
        return r.T if self.axis == 0 and r.ndim == 2 else r


def span(t):
    """first and last sample time"""
    t = S(t)
    if t.tg[0] is None:
        return t[0], t[-1]
    m = ctx().m
    lo, hi = (track_uf(k, t, t, S(0)) for k in ('first', 'last'))
    return lo, hi


def value(row, t, q, kind):
    row, t, q = S(row), S(t), S(q)
    m = ctx().m
    if q.tg == t.tg and q.d.shape == t.d.shape and all(a is b for a, b in zip(q.d.reshape(-1), t.d.reshape(-1))):
        return row                                   # at the sample times
    if kind in ('linear', 1):
        if t.tg[0] is None:
            n = t.shape[0]
            v = None
            for k in range(n - 2, -1, -1):
                c = row[k] + (q - t[k]) / (t[k + 1] - t[k]) * (row[k + 1] - row[k])
                v = c if v is None else m.where(q <= t[k + 1], c, v)
            return v
        L, R, tl, tr = bracket(row, t, q) + bracket(t, t, q)
        ctx().assume(sym.ew(sym.R2(tm.lt), tl, tr))
        w = (q - tl) / (tr - tl)
        return L + w * (R - L)
    return track_uf('interp_%s' % kind, row, t, q)


def bracket(row, t, q):
    """values of a row at the samples before and after a query time"""
    return tuple(track_uf(k, row, t, q) for k in ('before', 'after'))


def savgol_name(w, p, kw):
    return 'g_savgol_%s_%s_%s' % (w, p, '_'.join(str(kw[k]) for k in ('deriv', 'delta', 'mode', 'cval')))


def smooth_row(row, w, p, kw):
    row = S(row)
    name = savgol_name(w, p, kw)
    m = ctx().m
    rn, ra = _row_key(row)
    if row.tg[0] is None:
        return stack([m.uf('%s_%d' % (name, i), *ra) for i in range(row.shape[0])], 0)
    # the value at the generic column of the filter of this row
    return SA(sym.fmap(lambda q: tm.fn('uf:' + name + rn, q), row.d), row.tg)


def s_savgol_filter(x, window_length, polyorder, deriv=0, delta=1.0, axis=-1, mode='interp', cval=0.0):
    """scipy.signal.savgol_filter: row by row; only determined by its arguments"""
    if not isinstance(window_length, int) or not isinstance(polyorder, int):
        raise sym.Unsupported('symbolic window')
    if window_length % 2 == 0:
        raise ValueError('window_length must be odd')         # scipy before 1.5; later versions: half a sample of delay
    if polyorder >= window_length:
        raise ValueError('polyorder must be less than window_length.')
    if mode not in ('mirror', 'constant', 'nearest', 'interp', 'wrap'):
        raise ValueError('mode')
    x = S(x)
    kw = dict(deriv=deriv, delta=float(delta), mode=mode, cval=float(cval) if mode == 'constant' else 0)
    rows = [smooth_row(r, window_length, polyorder, kw) for r in _rows(x, axis)]
    if x.ndim == 1:
        return rows[0]
    r = stack(rows, 0)
    return r.T if axis == 0 else r


HOME = {'isclose': 'util', 'allclose': 'util', 'interp1d': 'core', 'savgol_filter': 'core', 'lat_lon2n_E': 'core', 'n_E2lat_lon': 'rotation', 'n_EB_E2p_EB_E': 'core', 'p_EB_E2n_EB_E': 'core',
        'n_E2R_EN': 'rotation', 'n_E_and_wa2R_EL': 'rotation', 'zyx2R': 'rotation', 'xyz2R': 'rotation',
        'n_EA_E_distance_and_azimuth2n_EB_E': 'core',
        'great_circle_distance': 'core', 'euclidean_distance': 'core', '_Geodesic': 'objects', 'cross_track_distance': 'core', 'on_great_circle_path': 'core',
        'closest_point_on_great_circle': 'core'}
OO = ('lat_lon2n_E', 'n_E2lat_lon', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'n_E2R_EN', 'n_E_and_wa2R_EL', 'zyx2R',
      'great_circle_distance', 'euclidean_distance', '_Geodesic')


CLASSES = {'_Geodesic': GeoStub, 'interp1d': InterpStub}


def make(nv, names):
    out = {}
    import importlib
    for n in names:
        prefix = 's_'
        if n.endswith('*'):
            n, prefix = n[:-1], 'a_'
        mod = importlib.import_module('nvector.' + HOME[n])
        real = getattr(mod, n, None)
        if real is None:
            continue
        if n in CLASSES:
            out[id(real)] = CLASSES[n]
            continue
        out[id(real)] = _bind(real, globals()[prefix + n])
    return out


def _bind(real, stub):
    try:
        sig = inspect.signature(real)
    except (TypeError, ValueError):
        return stub

    def g(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        return stub(**{q: (v if q == 'R_Ee' else as_sa(v)) for q, v in b.arguments.items()})
    g.__name__ = getattr(real, '__name__', 'stub')
    g.__doc__ = getattr(real, '__doc__', None)
    return g
