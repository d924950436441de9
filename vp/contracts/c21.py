"""C21: equality."""
from ..contract import *
from .. import spec as sp

STUBS = ['isclose', 'allclose', 'lat_lon2n_E', 'n_E2lat_lon', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'n_E2R_EN*', 'n_E_and_wa2R_EL*', 'zyx2R*']
EXPLANATION = 'infinities and NaN (isclose, allclose) and comparisons with unrelated objects: enumeration of representatives'


def agree(m, a, b, rtol=1e-12, atol=1e-14):
    return m.abs(a - b) <= m.maximum(m.c(atol), rtol * m.maximum(m.abs(a), m.abs(b)))


def near(m, a, b, rtol=1e-12, atol=1e-14):
    d, t = m.abs(a - b), m.maximum(m.c(atol), rtol * m.maximum(m.abs(a), m.abs(b)))
    ulp = 5e-16 * m.maximum(m.abs(a), m.abs(b))
    return m.and_(d > 0.95 * t - ulp, d < 1.05 * t + ulp)


# ------------------------------------------------------------------------------------------------ isclose, allclose
def ic_inputs(c):
    tol = dict(glo=0.0, ghi=0.5, edges=[0.0, 1e-9, 1e-3, 0.1, 1.0])
    e = dict(edges=[0.0, 1.0, -1.0, 1e-9, 1e6, 5e-324, 1e-14], scale=2.0)
    sh = [('N',) if k == 'N' else () for k in c['sh']]
    d = dict(a=Real(sh[0], **e), b=Real(sh[1], **e))
    if c['tol'] != 'default':
        d.update(rtol=Real((), 0, None, **tol), atol=Real((), 0, None, **tol))
    return d


def ic_call(nv, x, cfg):
    kw = dict(rtol=x.rtol, atol=x.atol) if cfg['tol'] != 'default' else {}
    if cfg.get('nan'):
        kw['equal_nan'] = True
    u = nv.util
    return u.isclose(x.a, x.b, **kw), u.isclose(x.b, x.a, **kw), u.allclose(x.a, x.b, **kw), u.allclose(x.b, x.a, **kw), \
        u.isclose(x.a, x.a, **kw)


def ic(m, s, out, cfg):
    c1, c2, a1, a2, r = out
    sh = ('N',) if 'N' in cfg['sh'] else ()
    one, all_ = ((s.rtol, s.atol),) * 2 if cfg['tol'] != 'default' else ((1e-9, 0.0), (1e-7, 1e-14))
    a, b = m.arr(s.a), m.arr(s.b)
    for q in (c1, c2):
        yield Shape('shape', q, sh)
    for q in (a1, a2):
        yield Shape('one truth value', q, ())
    nr = None if m.symbolic else near(m, a, b, *one)
    for q in (c1, c2):
        yield Iff('isclose: |a-b| <= max(atol, rtol*max(|a|, |b|)) element by element', q, agree(m, a, b, *one), nr)
    nr = None if m.symbolic else not m.allcols(m.not_(near(m, a, b, *all_)))
    for q in (a1, a2):
        yield Iff('allclose: every element is close', q, m.allcols(agree(m, a, b, *all_)), nr)
    yield Iff('isclose is reflexive', r, m.arr(a) == m.arr(a))


def ic_draw(c, rng, n):
    sh = [n if k == 'N' else None for k in c['sh']]

    def some(k):
        v = [rng.choice([0.0, 1.0, -2.0, 1e-9, 1e6, 3e-14, rng.gauss(0, 1)]) for _ in range(k or 1)]
        return np.array(v if k else v[0])
    a, b = some(sh[0]), some(sh[1])
    d = dict(a=a, b=b)
    t = [0.0, 1e-9, 1e-12, 1e-3, 0.1, 1e-14]
    if c['tol'] != 'default':
        d.update(rtol=np.array(rng.choice(t)), atol=np.array(rng.choice(t)))
    if rng.random() < 0.8:
        d['b'] = np.broadcast_to(a, np.shape(b)).copy() if np.ndim(a) <= np.ndim(b) else np.array(a.flat[0])
        k = 10.0 ** rng.uniform(-16, 0) * rng.choice([0, 1, -1])
        if rng.random() < 0.5:
            d['b'] = d['b'] * (1 + k)
        elif np.ndim(d['b']):
            d['b'][rng.randrange(n)] += k
        else:
            d['b'] = d['b'] + k
    return d


# --------------------------------------------------------------------------------------------------------- objects
ANG = dict(edges=[0.0, 1.5707963267948966, 3.0, -3.0])


def obj_inputs(c):
    sh = ('N',) if c.get('N') else ()
    col = 'N' if c.get('N') else 1
    k = c['kind']
    d = {}
    for i in '12':
        if k == 'GeoPoint':
            d['lat' + i], d['lon' + i] = AnyAngle(sh), AnyAngle(sh)
        elif k in ('Nvector', 'ECEFvector', 'Pvector'):
            d['v' + i] = Vec3(col)
        elif k.startswith('Frame') and k != 'FrameE':
            d['n' + i] = Unit(1, exclude={'e': 2, 'E': 0}[c['axes'][int(i) - 1]])
        if k in ('GeoPoint', 'Nvector', 'FrameB'):
            d['z' + i] = Real(sh if c.get('z') == 'cols' else (), scale=100.0, edges=[0.0, 1.0, -5.0, 1e4])
        if k == 'FrameL':
            d['wa' + i] = AnyAngle(())
        if k == 'FrameB':
            d.update({q + i: AnyAngle(()) for q in ('yaw', 'pitch', 'roll')})
        d.update({'a' + i: SemiAxis(), 'f' + i: Flat(0.9)})
    if k == 'Pvector':
        d['n1'], d['n2'] = Unit(1, exclude={'e': 2, 'E': 0}[c['axes'][0]]), Unit(1, exclude={'e': 2, 'E': 0}[c['axes'][1]])
    return d


def build1(nv, x, cfg, i):
    i = str(i)
    label = {'name': 'local'} if i == '2' else {}           # the name of a frame is a label only
    fr = nv.FrameE(a=x['a' + i], f=x['f' + i], axes=cfg['axes'][int(i) - 1], **label)
    k = cfg['kind']
    if k == 'FrameE':
        return fr
    if k == 'GeoPoint':
        return fr.GeoPoint(x['lat' + i], x['lon' + i], x['z' + i])
    if k == 'Nvector':
        return fr.Nvector(x['v' + i], x['z' + i])
    if k == 'ECEFvector':
        return fr.ECEFvector(x['v' + i])
    if k == 'Pvector':
        return nv.FrameN(fr.Nvector(x['n' + i])).Pvector(x['v' + i])
    n = fr.Nvector(x['n' + i], x['z' + i] if 'z' + i in x else 0)
    if k == 'FrameN':
        return nv.FrameN(n)
    if k == 'FrameL':
        return nv.FrameL(n, x['wa' + i])
    return nv.FrameB(n, x['yaw' + i], x['pitch' + i], x['roll' + i])


def obj_call(nv, x, cfg):
    A, B = build1(nv, x, cfg, 1), build1(nv, x, cfg, 2)
    if cfg['rel'] == 'reflexive':
        A2 = build1(nv, x, cfg, 1)
        return [A == A2, A2 == A, A == A], [A != A2, A != A], None
    R = None
    if cfg['kind'] in ('FrameN', 'FrameL', 'FrameB'):
        R = A.R_EN, B.R_EN
    elif cfg['kind'] == 'Pvector':
        R = A.frame.R_EN, B.frame.R_EN
    if cfg['rel'] == 'forward':
        return [A == B], [], R
    if cfg['rel'] == 'backward':
        return [B == A], [], R
    return [], [A != B], R


def circular(m, a, b):
    """distance of two angles modulo a full turn"""
    d = m.mod(a - b, 2 * m.pi)
    return m.where(d > m.pi, 2 * m.pi - d, d)


def full(m, c):
    c = m.arr(c)
    return m.allcols(c) if c.ndim else c


def obj(m, s, out, cfg):
    eqs, nes, R = out
    truth = m.c(True) if m.symbolic else np.array(True)
    if cfg['rel'] == 'reflexive':
        for q in eqs:
            yield Iff('equal to itself and to an object built alike', m.arr(q) if m.symbolic else q, truth)
        for q in nes:
            yield Iff('!= is the negation of ==', m.arr(q) if m.symbolic else q, m.not_(truth))
        return
    pairs, angles = [], []
    k = cfg['kind']
    if k == 'GeoPoint':
        angles = [(s.lat1, s.lat2), (s.lon1, s.lon2)]
    if 'v1' in s:
        pairs += [(s.v1, s.v2)]
    if k in ('FrameN', 'FrameL', 'FrameB', 'Pvector'):
        pairs += [(s.n1, s.n2)]
    if 'z1' in s:
        pairs += [(s.z1, s.z2)]
    if k == 'FrameB':
        pairs += [(s[q + '1'], s[q + '2']) for q in ('yaw', 'pitch', 'roll')]
    pairs += [(s.a1, s.a2), (s.f1, s.f2)]
    if R is not None:
        pairs.append(R)
    parts, nr = [], []
    for a, b in angles:
        d = circular(m, m.arr(b), m.arr(a)) if cfg['rel'] == 'backward' else circular(m, m.arr(a), m.arr(b))
        parts.append(full(m, d <= 1e-14))
        if not m.symbolic:
            ulp = 2e-15 + 4e-16 * (m.abs(m.arr(a)) + m.abs(m.arr(b)))
            nr.append(not np.all(np.asarray(m.not_(m.and_(d > 1e-14 - ulp, d < 1e-14 + ulp)), bool)))
    for a, b in pairs:
        a, b = m.arr(a), m.arr(b)
        e = agree(m, a, b)
        if e.ndim > 1:
            for i in np.ndindex(*e.shape[:-1]):
                parts.append(full(m, e[i]))
        else:
            parts.append(full(m, e))
        if not m.symbolic:
            nr.append(not np.all(np.asarray(m.not_(near(m, a, b)), bool)))
    spec = truth if cfg['axes'][0] == cfg['axes'][1] else m.not_(truth)
    for p in parts:
        spec = m.and_(spec, p)
    near_ = None if m.symbolic else np.array(any(nr))
    for q in eqs:
        yield Iff('== holds exactly if all parts agree', m.arr(q) if m.symbolic else q, spec, near_)
    for q in nes:
        yield Iff('!= holds exactly if some part differs', m.arr(q) if m.symbolic else q, m.not_(spec), near_)


def obj_draw(c, rng, n):
    v = edge_values(Contract('x', [], obj_inputs, None, None, []), c, rng, n)
    if rng.random() < 0.85:
        names = [k for k in v if k.endswith('1')]
        for k in names:
            v[k[:-1] + '2'] = np.array(v[k])
        if c['kind'].startswith('Frame') and c['axes'][0] != c['axes'][1]:
            for i in '12':
                if 'n' + i in v:
                    v['n' + i] = np.array([[0.6], [0.48], [0.64]])
        elif c['kind'] == 'Pvector' and c['axes'][0] != c['axes'][1]:
            v['n1'] = v['n2'] = np.array([[0.6], [0.48], [0.64]])
        if rng.random() < 0.85:
            k = rng.choice(names)[:-1] + '2'
            w = np.array(v[k])
            i = tuple(rng.randrange(q) for q in w.shape)
            d = rng.choice([-1, 1]) * 10.0 ** rng.choice([-16, -15, -14.5, -13.5, -13, -12.5, -11.5, -10, -7, -3])
            if k[:3] in ('lat', 'lon') and rng.random() < 0.4:
                w[i] += rng.choice([-2, 2, 4]) * np.pi
            elif k[0] in 'vza' and k[:2] != 'wa':
                w[i] += d * max(1.0, abs(w[i])) if rng.random() < 0.7 else d * 10
            elif k[0] == 'f':
                w[i] = min(0.89, abs(w[i] + d))
            elif k[0] == 'n':
                w[i] += d
                w = w / np.sqrt((w * w).sum(axis=0))
            else:
                w[i] += d
            v[k] = w
    return v


# ---------------------------------------------------------------------------------------------- enumerated values
def extra(nv, tier, seed):
    out = []

    def add(name, ok, why, call):
        o = dict(name=name, status='proved' if ok else 'failed', secs=0.0, why='' if ok else str(why), path='',
                 backends={'enumeration': 1})
        if not ok:
            o['replay'] = dict(call=call, observed=str(why))
        out.append(o)

    def run(name, fn, want, call):
        try:
            r = fn()
            ok = r is want or (isinstance(r, (np.bool_, np.ndarray)) and np.ndim(r) == 0 and bool(r) is want)
        except Exception as e:
            ok, r = False, '%s: %s' % (type(e).__name__, e)
        add(name, ok, r, call)
    inf, nan = float('inf'), float('nan')
    vals = [inf, -inf, nan, 1.0, 0.0]
    u = nv.util
    for kw in ({}, dict(rtol=0.5, atol=3.0), dict(rtol=0.0, atol=0.0)):
        for en in (False, True):
            for a in vals:
                for b in vals:
                    if np.isfinite(a) and np.isfinite(b):
                        continue
                    want = a == b or (en and a != a and b != b)
                    call = 'isclose(%r, %r, equal_nan=%r, %r)' % (a, b, en, kw)
                    run('isclose of special values', lambda: bool(u.isclose(a, b, equal_nan=en, **kw)), want, call)
                    run('isclose of special values', lambda: bool(u.isclose([a, 1.0, 2.0], [b, 1.0, 2.0], equal_nan=en,
                                                                           **kw)[0]), want, '[1] ' + call)
                    run('allclose of special values', lambda: bool(u.allclose([1.0, a], [1.0, b], equal_nan=en, **kw)), want,
                        'all' + call[2:])
                    # a special value does not disturb its finite neighbours
                    run('neighbours of special values', lambda: [bool(q) for q in u.isclose(
                        [1.0, a, 5.0, 1e3], [1.0, b, 5.0 + 1e-3, 2e3], equal_nan=en, rtol=1e-9, atol=1e-2)] ==
                        [True, want, True, False], True, 'neighbours, ' + call)
    n = np.array([[0.6], [0.0], [0.8]])
    P = nv.Nvector(n, 1.0)
    mk = dict(GeoPoint=lambda: nv.GeoPoint(0.5, 0.25, 1.0), Nvector=lambda: nv.Nvector(n.copy(), 1.0),
              ECEFvector=lambda: nv.ECEFvector(6e6 * n), FrameE=lambda: nv.FrameE(), FrameN=lambda: nv.FrameN(P),
              FrameL=lambda: nv.FrameL(P, 0.5), FrameB=lambda: nv.FrameB(P, 0.1, 0.2, 0.3),
              Pvector=lambda: nv.FrameN(P).Pvector(6e6 * n),
              # the same numbers, in another role
              FrameB0=lambda: nv.FrameB(P), Pvector2=lambda: nv.FrameB(P, 0.1).Pvector(6e6 * n))
    other = dict(object=object(), none=None, number=5, text='x', real=1.5, tuple=(1, 2), list=[1.0], dict={}, cls=nv.GeoPoint,
                 fun=len)
    for k, f in mk.items():
        for q, o in other.items():
            run('%s == %s is False' % (k, q), lambda: f() == o, False, '%s == %r' % (k, o))
            run('%s != %s is True' % (k, q), lambda: f() != o, True, '%s != %r' % (k, o))
            run('%s == %s is False (reversed)' % (q, k), lambda: o == f(), False, '%r == %s' % (o, k))
        for q, g in mk.items():
            run('%s == %s' % (k, q), lambda: f() == g(), k == q, '%s == %s' % (k, q))
            run('%s != %s' % (k, q), lambda: f() != g(), k != q, '%s != %s' % (k, q))
    run('north frame and wander frame without wander angle agree', lambda: nv.FrameN(P) == nv.FrameL(P, 0), True, 'FrameN == FrameL')
    run('north frame and wander frame without wander angle agree', lambda: nv.FrameL(P, 0) == nv.FrameN(P), True, 'FrameL == FrameN')
    run('north frame and wander frame differ', lambda: nv.FrameN(P) == nv.FrameL(P, 0.5), False, 'FrameN == FrameL')
    run('north frame and wander frame differ', lambda: nv.FrameL(P, 0.5) == nv.FrameN(P), False, 'FrameL == FrameN')
    return out


IC = [dict(N=n, sh=sh, tol=t) for n, sh in (('N', 'NN'), ('N', 'Ns'), ('N', 'sN'), (1, 'NN'), (3, 'NN'), (None, 'ss'))
      for t in ('given', 'default')] + [dict(N='N', sh='NN', tol='given', nan=True)]


def obj_cfgs():
    out = []
    for k in ('GeoPoint', 'Nvector', 'ECEFvector', 'Pvector', 'FrameE', 'FrameN', 'FrameL', 'FrameB'):
        cols = (None, 'N') if k in ('GeoPoint', 'Nvector', 'ECEFvector', 'Pvector') else (None,)
        for N in cols:
            for rel in ('reflexive', 'forward', 'backward', 'differs'):
                for ax in (('e', 'e'), ('E', 'E'), ('e', 'E')):
                    if ax == ('E', 'E') and (N or rel == 'differs'):
                        continue
                    if ax == ('e', 'E') and rel == 'reflexive':
                        continue
                    c = dict(N=N, kind=k, rel=rel, axes=ax)
                    if N and k in ('GeoPoint', 'Nvector'):
                        c['z'] = 'cols'
                    out.append(c)
    return out


# the specification of angles is symmetric
def lemma_call(nv, x, cfg):
    return ()


def lemma(m, s, out, cfg):
    yield Eq('distance of angles modulo a full turn is symmetric', circular(m, s.a, s.b), circular(m, s.b, s.a), 1e-12)


CONTRACTS = [
    Contract('symmetry of the distance of angles', [], lambda c: dict(a=AnyAngle(()), b=AnyAngle(())), lemma_call, lemma,
             [dict(N=None)]),
    Contract('isclose and allclose', ['util.isclose', 'util.allclose'], ic_inputs, ic_call, ic, IC, draw=ic_draw),
    Contract('equality', ['objects._Common.__eq__', 'objects._Common.__ne__', 'objects.GeoPoint._is_equal_to',
                          'objects.Nvector._is_equal_to', 'objects.Pvector._is_equal_to', 'objects.FrameE._is_equal_to',
                          'objects.FrameN._is_equal_to', 'objects.FrameB._is_equal_to', 'util.allclose', 'util.isclose'],
             obj_inputs, obj_call, obj, obj_cfgs(), stubs=STUBS, draw=obj_draw),
]
