"""C25: interpolation of tracks in time."""
import mpmath
from ..contract import *
from ..sym import SA, S
from .. import spec as sp
from .. import sym
from .. import stubs

TECHNIQUE = 'contract-based deductive verification: symbolic execution of the real functions against postconditions over trusted ' \
    'contracts of scipy (interp1d, savgol_filter); scipy itself only by the bounded runtime companion'
NOTE = 'scipy.interpolate.interp1d and scipy.signal.savgol_filter are assumed to satisfy their documentation (row by row, exact at ' \
    'the samples, on the chord for the linear kind).'
TRUSTED = ['scipy.interpolate.interp1d: row by row; equal to the samples at the sample times; for the linear kind on the chord '
           'between the bracketing samples; the fill value (or an error) outside of the times',
           'scipy.signal.savgol_filter: row by row, determined by the row, the (odd) window and the options']
EXPLANATION = 'the real functions are run with scipy replaced by its contract; the smoothing windows are enumerated'


def inputs(c):
    d = {}
    K = c.get('K')
    shp = ('N',) if not K else ()
    if K:
        for i in range(K):
            d['n%d' % i] = Unit(1)
            d['g%d' % i] = Real((), 0, None, open_lo=True, glo=0.1, ghi=2.0, edges=[1.0, 0.25])
            if c.get('z', 'cols') == 'cols' and c['fn'] == 'o':
                d['z%d' % i] = Real((), edges=[0.0, -100.0])
    else:
        d['n'] = Unit('N')
        d['t'] = Real(('N',), glo=-10, ghi=10, edges=[0.0, 3.0, 1e5])
        if c.get('z', 'cols') == 'cols' and c['fn'] == 'o':
            d['z'] = Real(('N',), edges=[0.0, -100.0])
    if c['fn'] == 'o' and c.get('z', 'cols') != 'cols':
        d['z'] = Real((), edges=[0.0, -100.0])
    if c['q'] != 'same':
        sh = {'scalar': (), '3': (3,), 'cols': ('N',)}[c['q']]
        d['q'] = Real(sh, glo=-1 if K else -8, ghi=4 if K else 8, edges=[0.0, 1.0, 1e9, -1e9, 0.5])
    return d


def track(x, c, m=None):
    """n-vectors (3, K), times (K,), depths"""
    K = c.get('K')
    if not K:
        t = x.t
        if not isinstance(t, SA):
            t = np.sort(t)
        return x.n, t, x.get('z', 0)
    if isinstance(x.n0, SA):
        st = lambda v: sym.stack(v, 0)
        cc = sym.TABLE['hstack']
    else:
        st, cc = np.stack, np.hstack
    ts = [0 * x.g0]
    for i in range(1, K):
        ts.append(ts[-1] + x['g%d' % i])
    n = cc([x['n%d' % i] for i in range(K)])
    if c['fn'] == 'o' and c.get('z', 'cols') == 'cols':
        z = st([x['z%d' % i] for i in range(K)])
    else:
        z = x.get('z', 0)
    return n, st(ts), z


def kw(c):
    o = {}
    if c.get('kind'):
        o['kind'] = c['kind']
    if c.get('win') is not None:
        o['window_length'] = c['win']
    for k in ('polyorder', 'mode', 'cval'):
        if k in c:
            o[k] = c[k]
    return o


def call(nv, x, cfg):
    n, t, z = track(x, cfg)
    q = t if cfg['q'] == 'same' else x.q
    if cfg.get('refused'):
        try:
            run(nv, n, t, z, q, cfg)
        except ValueError:
            return 'refused', None, None
        return 'accepted', None, None
    return run(nv, n, t, z, q, cfg)


def run(nv, n, t, z, q, cfg):
    if cfg['fn'] == 'f':
        return nv.interp_nvectors(q, t, n, **kw(cfg)), None, None
    fr = nv.FrameE(name='WGS84', axes=cfg.get('axes', 'e'))
    r = nv.Nvector(n, z, fr).interpolate(q, t, **kw(cfg))
    return r.normal, r.z, (type(r).__name__, r.frame is fr)


# ------------------------------------------------------------------------------------------ specification
def odd(w):
    return w if w % 2 else w + 1


def smoothed(m, row, cfg):
    w = cfg.get('win') or 0
    if w <= 0:
        return row
    p, mode, cval = cfg.get('polyorder', 2), cfg.get('mode', 'interp'), cfg.get('cval', 0.0)
    if m.symbolic:
        return stubs.smooth_row(row, odd(w), p, dict(deriv=0, delta=1.0, mode=mode, cval=float(cval) if mode == 'constant' else 0))
    return num_smooth(row, odd(w), p, mode, cval)


def num_smooth(row, w, p, mode, cval):
    """least squares polynomial of the window evaluated at its centre (at the ends: of the first and last window)"""
    h, n = w // 2, len(row)
    row = [mpmath.mpf(v) for v in row]
    if mode == 'interp':
        ext, off = row, 0
    else:
        pick = {'nearest': lambda i: row[min(max(i, 0), n - 1)],
                'constant': lambda i: row[i] if 0 <= i < n else mpmath.mpf(cval),
                'wrap': lambda i: row[i % n],
                'mirror': lambda i: row[(n - 1) - abs((n - 1) - i % (2 * n - 2))]}[mode]
        ext, off = [pick(i) for i in range(-h, n + h)], h
    A = mpmath.matrix(w, p + 1)
    for i in range(w):
        for j in range(p + 1):
            A[i, j] = mpmath.mpf(i - h) ** j
    P = (A.T * A) ** -1 * A.T
    out = []
    for i in range(n):
        c = min(max(i + off, h), len(ext) - 1 - h)
        co = P * mpmath.matrix(ext[c - h:c + h + 1])
        out.append(sum(co[j] * mpmath.mpf(i + off - c) ** j for j in range(p + 1)))
    return np.array(out, dtype=object)


def at(m, row, t, q, kind):
    """value of the interpolant of a row at the query times; None if not specified"""
    if m.symbolic:
        return m.flat(stubs.value(row, t, q, kind or 'linear'))
    q = np.ravel(q)
    if kind not in (None, 'linear', 1):
        return None
    out = []
    for v in q:
        k = 0
        while k < len(t) - 2 and v > t[k + 1]:
            k += 1
        out.append(row[k] + (v - t[k]) / (t[k + 1] - t[k]) * (row[k + 1] - row[k]))
    return np.array(out, dtype=object)


def ensures(m, s, out, cfg):
    n, z, info = out
    if cfg.get('refused'):
        yield Check('a window (the next odd length) not longer than the order of the polynomial is refused, not widened further',
                    n == 'refused', n)
        return
    one = cfg['q'] == 'scalar'
    cols = (1,) if one else (3,) if cfg['q'] == '3' else ('N',) if not cfg.get('K') or cfg['q'] == 'cols' else (cfg['K'],)
    yield Shape('shape', n, (3,) + cols)
    nn, t, zz = track(s, cfg)
    if not m.symbolic:
        t = np.sort(t)
    q = t if cfg['q'] == 'same' else s.q
    rows = [nn[i] for i in range(3)]
    if cfg['fn'] == 'o':
        yield Shape('shape of the depth', z, cols)
        yield Check('an n-vector position of the same frame', info == ('Nvector', True), info)
        rows.append(zz if np.ndim(zz) and not isinstance(zz, SA) or isinstance(zz, SA) and zz.ndim else zz + 0 * nn[0])
    rows = [smoothed(m, r, cfg) for r in rows]
    lo, hi = stubs.span(t) if m.symbolic else (t[0], t[-1])
    qf = m.flat(q)
    if cfg['q'] == 'same':
        inside = m.true() if not m.symbolic else m.not_(m.c(False))
        if m.symbolic:
            inside = m.and_(qf >= lo, qf <= hi)       # the last is not before the first: assumed of the times
        else:
            inside = np.ones(np.shape(qf), dtype=bool)
    else:
        inside = m.and_(qf >= lo, qf <= hi)
    outside = m.not_(inside)
    n = m.arr(n)
    comp = [n[i] for i in range(3)]
    for i in range(3):
        yield Implies(outside, Iff('NaN outside of the track (component %d)' % i, m.isnan(comp[i]), m.true()))
    if z is not None:
        yield Implies(outside, Iff('depth NaN outside of the track', m.isnan(m.arr(z)), m.true()))
    vals = [at(m, r, t, q, cfg.get('kind')) if cfg['q'] != 'same' else m.flat(r) for r in rows]
    if vals[0] is None:
        # no closed form: unit vectors inside (or NaN)
        ok = m.and_(inside, m.not_(m.isnan(comp[0])))
        yield Implies(ok, Eq('unit length', sum(m.where(ok, c, 0 * qf) ** 2 for c in comp), 1 + 0 * qf, 1e-12))
        return
    L2 = sum(v * v for v in vals[:3])
    good = m.and_(inside, L2 > (0 if m.symbolic else 1e-6))
    L = m.sqrt(m.where(good, L2, 1 + 0 * L2)) if not m.symbolic else m.sqrt(L2)
    tol = 1e-9 if not m.symbolic else 0
    k = 0 * qf + 0 * L2
    for i in range(3):
        c = comp[i] if m.symbolic else m.where(good, comp[i], 0 * qf)
        yield Implies(good, Eq('the normalised value of the interpolant (component %d)' % i, c, vals[i] / L + k, tol))
    yield Implies(good, Eq('unit length', sum((c if m.symbolic else m.where(good, c, 0 * qf)) ** 2 for c in comp), 1 + k, 1e-12))
    if m.symbolic and not cfg.get('K') and one:
        zero = m.and_(inside, L2 <= 0)
        for i in range(3):
            yield Implies(zero, Iff('undefined direction gives NaN (component %d)' % i, m.isnan(comp[i]), m.true()))
    if z is not None:
        zv = m.arr(z)
        sc = 1 if m.symbolic else 1 + max(abs(float(v)) for v in np.ravel(rows[3]))
        yield Implies(inside, Eq('depth: value of the same interpolant', (zv if m.symbolic else m.where(inside, zv, 0 * qf)) / sc,
                                 (vals[3] + 0 * qf) / sc, tol))
    if cfg['q'] == 'same' and not cfg.get('win'):
        for i in range(3):
            yield Implies(inside, Eq('the samples at the sample times (component %d)' % i, comp[i], m.flat(nn[i]), 1e-12 if cfg.get("kind") in ("linear", "nearest", "previous", "next") else 1e-9))


def requires(m, s, cfg):
    if m.symbolic and not cfg.get('K'):
        return []
    return []


def keep(m, s, cfg):
    _, t, _ = track(s, cfg)
    t = np.sort(t)
    if any(t[i + 1] - t[i] < 1e-3 for i in range(len(t) - 1)):
        return False
    k = cfg.get('kind')
    need = {'cubic': 4, 3: 4, 'quadratic': 3, 2: 3}.get(k, 2)
    w = cfg.get('win') or 0
    if w > 0:
        need = max(need, odd(w))
    if w > 0 and cfg.get('polyorder', 2) >= odd(w) and not cfg.get('refused'):
        return False
    if len(t) < need:
        return False
    return all(abs(float(v)) < 1e4 for v in np.ravel(s.get('z', 0)))


def cfgs():
    out = []
    for fn in 'fo':
        for q in ('scalar', '3', 'same'):
            for kind in (None, 'linear', 'cubic', 'nearest', 2):
                out.append(dict(N='N', fn=fn, q=q, kind=kind))
        for K in (2, 3, 4):
            for q, N in (('cols', 'N'), ('scalar', None), ('cols', 1), ('cols', 3), ('same', None)):
                out.append(dict(N=N, fn=fn, q=q, K=K))
        for w in (-1, 0, 1, 2, 3, 4, 5, 6, 8, 20):
            for q in ('scalar', 'same'):
                out.append(dict(N='N', fn=fn, q=q, win=w, **({'polyorder': 0} if w in (1,) else {})))
        for mode, cval in (('mirror', 0.0), ('constant', 0.5), ('nearest', 0.0), ('wrap', 0.0), ('interp', 1.0)):
            out.append(dict(N='N', fn=fn, q='scalar', win=4, mode=mode, cval=cval, polyorder=3, kind='linear'))
        for w, p in ((1, 1), (2, 3), (3, 3), (3, 5), (4, 5), (5, 8)):
            for mode in ('interp', 'nearest'):
                out.append(dict(N='N', fn=fn, q='same', win=w, polyorder=p, mode=mode, refused=True))
    for q in ('scalar', '3', 'same'):
        for w in (None, 3):
            out.append(dict(N='N', fn='o', q=q, z='scalar', win=w, axes='E'))
    out.append(dict(N='N', fn='o', q='cols', K=3, z='scalar'))
    return out


CONTRACTS = [
    Contract('track', ['core.interp_nvectors', 'core._interp_vectors', 'objects.Nvector.interpolate'], inputs, call, ensures, cfgs(),
             requires=requires, keep=keep, stubs=['interp1d', 'savgol_filter'], trials=0.6),
]
