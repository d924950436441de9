"""C28: arithmetic of vector objects."""
from ..contract import *
from .. import spec as sp

EXPLANATION = 'frame axioms: the operands are compared with their state before the operations (obligation "frame" and ' \
    '"operands unchanged")'


def frame(nv, x, cfg):
    return nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])


def inputs(c):
    z1, z2 = [(('N',) if q == 'cols' else ()) for q in c.get('z', ('one', 'one'))]
    c1, c2 = c['cols']
    e = dict(edges=[0.0, 1.0, -1.0, 2.0, -0.5, 1e6, 1e-6])
    return dict(u=Vec3(c1), v=Vec3(c2), p=Real(z1, scale=100, **e), q=Real(z2, scale=100, **e),
                k=Real((('N',) if c.get('k') == 'cols' else ()), scale=3.0, **e), a=SemiAxis(), f=Flat(0.9))


def requires(m, s, cfg):
    k = m.cols(s.k, 0)
    return [m.not_((k - 0 * k) == 0)]


def refuses(fn):
    try:
        fn()
    except (NotImplementedError, TypeError):
        return True
    return False


def snap(o):
    return {k: (v, getattr(v, 'shape', None)) for k, v in o.__dict__.items()}


def unchanged(o, s):
    return set(o.__dict__) == set(s) and all(o.__dict__[k] is v and getattr(v, 'shape', None) == sh for k, (v, sh) in s.items())


def n_call(nv, x, cfg):
    fr = frame(nv, x, cfg)
    fr2 = frame(nv, x, cfg)         # an equal frame, not the same object
    A, B = fr.Nvector(x.u, x.p), nv.Nvector(x.v, x.q, fr2)
    sa, sb = snap(A), snap(B)
    k = x.k
    C = A
    C += B
    D = A
    D -= B
    F = A
    F *= k
    G = A
    G /= k
    res = dict(add=A + B, sub=A - B, neg=-A, mul=A * k, rmul=3.0 * A, div=A / k, iadd=C, isub=D, imul=F, idiv=G,
               swapped=B + A, radd=A.__radd__(B), one=A * 1, rone=1 * A, divone=A / 1, zero=A * 0, minus=A * -2.5)
    ok = {n: type(r) is nv.Nvector and r.frame is (fr2 if n == 'swapped' else fr) and r is not A and r is not B
          for n, r in res.items()}
    same = unchanged(A, sa) and unchanged(B, sb)
    ref = refuses(lambda: A * B) and refuses(lambda: A * A) and refuses(lambda: A / B) and refuses(lambda: A / A)
    return {n: (r.normal, r.z) for n, r in res.items()}, ok, same, ref


def n_ens(m, s, out, cfg):
    res, ok, same, ref = out
    for n in sorted(ok):
        yield Check('%s: a new n-vector of the same frame' % n, ok[n], n)
    yield Check('operands unchanged', same, 'an operand was modified')
    yield Check('product and quotient of two n-vectors are refused', ref, 'no NotImplementedError')
    k = s.k
    for n, fn in (('add', lambda a, b: a + b), ('iadd', lambda a, b: a + b), ('swapped', lambda a, b: a + b),
                  ('radd', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('isub', lambda a, b: a - b),
                  ('neg', lambda a, b: -a), ('mul', lambda a, b: a * k), ('imul', lambda a, b: a * k),
                  ('rmul', lambda a, b: 3.0 * a), ('minus', lambda a, b: a * -2.5), ('zero', lambda a, b: a * 0),
                  ('div', lambda a, b: a / k), ('idiv', lambda a, b: a / k), ('one', lambda a, b: a), ('rone', lambda a, b: a),
                  ('divone', lambda a, b: a)):
        for what, got, a, b in (('vector', res[n][0], s.u, s.v), ('depth', res[n][1], s.p, s.q)):
            w = fn(m.arr(a), m.arr(b))
            yield Shape('%s: shape of the %s' % (n, what), got, np.shape(w) if not m.symbolic else w.shape)
            yield Eq('%s: %s component by component' % (n, what), got, w, 1e-14 * (1 + m.abs(w)) if not m.symbolic else 0)


def p_inputs(c):
    d = inputs(c)
    return {k: d[k] for k in ('u', 'v', 'a', 'f')}


def p_call(nv, x, cfg):
    fr, fr2 = frame(nv, x, cfg), frame(nv, x, cfg)
    A, B = fr.ECEFvector(x.u), nv.ECEFvector(x.v, fr2)
    sa, sb = snap(A), snap(B)
    C = A
    C += B
    D = A
    D -= B
    res = dict(add=A + B, sub=A - B, neg=-A, iadd=C, isub=D, swapped=B + A, negneg=-(-A))
    ok = {n: type(r) is nv.ECEFvector and r.frame is (fr2 if n == 'swapped' else fr) and r is not A and r is not B
          for n, r in res.items()}
    sc = {n: bool(r.scalar) for n, r in res.items()}
    same = unchanged(A, sa) and unchanged(B, sb)
    return {n: r.pvector for n, r in res.items()}, ok, same, sc, (A.scalar, B.scalar)


def p_ens(m, s, out, cfg):
    res, ok, same, sc, (a1, b1) = out
    for n in sorted(ok):
        yield Check('%s: a new ECEF vector of the same frame' % n, ok[n], n)
        want = a1 if n in ('neg', 'negneg') else (a1 and b1)
        yield Check('%s: scalar exactly if the operands are' % n, sc[n] == bool(want), (n, sc[n]))
    yield Check('operands unchanged', same, 'an operand was modified')
    for n, fn in (('add', lambda a, b: a + b), ('iadd', lambda a, b: a + b), ('swapped', lambda a, b: a + b),
                  ('sub', lambda a, b: a - b), ('isub', lambda a, b: a - b), ('neg', lambda a, b: -a),
                  ('negneg', lambda a, b: a)):
        w = fn(m.arr(s.u), m.arr(s.v))
        yield Shape('%s: shape' % n, res[n], np.shape(w) if not m.symbolic else w.shape)
        yield Eq('%s: component by component' % n, res[n], w, 1e-14 * (1 + m.abs(w)) if not m.symbolic else 0)


def d_call(nv, x, cfg):
    """differences of positions are vectors too"""
    fr = frame(nv, x, cfg)
    A, B = fr.ECEFvector(x.u), fr.ECEFvector(x.v)
    d1, d2 = A.delta_to, nv.delta_E(A, B)
    return d2.pvector, (-d2).pvector, (d2 + A).pvector, (d2 - B).pvector, d2.frame is fr


def d_ens(m, s, out, cfg):
    d, nd, da, db, ok = out
    u, v = m.arr(s.u), m.arr(s.v)
    yield Check('frame of the delta vector', ok, 'frame')
    for lab, got, w in (('delta vector', d, v - u), ('negated', nd, u - v), ('start plus delta is the end', da, v + 0 * u),
                        ('delta minus end', db, 0 * v - u)):
        yield Shape(lab + ': shape', got, np.shape(w) if not m.symbolic else w.shape)
        yield Eq(lab, got, w, 1e-14 * (1 + m.abs(u) + m.abs(v)) if not m.symbolic else 0)


CF = [dict(N='N', cols=('N', 'N'), z=('cols', 'cols'), axes='e'), dict(N='N', cols=('N', 'N'), z=('one', 'cols'), axes='E'),
      dict(N='N', cols=('N', 1), z=('cols', 'one'), axes='e'), dict(N='N', cols=(1, 'N'), z=('one', 'cols'), axes='E'),
      dict(N='N', cols=('N', 'N'), z=('cols', 'cols'), axes='e', k='cols'),
      dict(N=1, cols=('N', 'N'), z=('one', 'one'), axes='e'), dict(N=1, cols=('N', 'N'), z=('cols', 'one'), axes='E'),
      dict(N=3, cols=('N', 'N'), z=('cols', 'cols'), axes='E'), dict(N=3, cols=('N', 'N'), z=('cols', 'cols'), axes='e', k='cols'),
      dict(N=3, cols=('N', 1), z=('one', 'one'), axes='E')]
CP = [dict(N=n, cols=c, axes=ax) for n in ('N', 1, 3) for c in (('N', 'N'), ('N', 1), (1, 'N')) for ax in 'eE']
CONTRACTS = [
    Contract('n-vectors', ['objects.Nvector.__add__', 'objects.Nvector.__sub__', 'objects.Nvector.__neg__',
                           'objects.Nvector.__mul__', 'objects.Nvector.__truediv__', 'objects.Nvector.__rmul__',
                           'objects.Nvector.__radd__', 'objects.FrameE.Nvector', 'objects._check_frames'],
             inputs, n_call, n_ens, CF, requires=requires),
    Contract('ECEF vectors', ['objects.ECEFvector.__add__', 'objects.ECEFvector.__sub__', 'objects.ECEFvector.__neg__',
                              'objects._check_frames'], p_inputs, p_call, p_ens, CP),
    Contract('delta vectors', ['objects.delta_E', 'objects.ECEFvector.__sub__'], p_inputs, d_call, d_ens, CP),
]
