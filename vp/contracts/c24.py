"""C24: unit, angle and matrix helpers."""
from ..contract import *
from .. import spec as sp

ANG = dict(glo=-400.0, ghi=400.0, edges=[0.0, 90.0, -90.0, 180.0, -180.0, 360.0, 1e-9, 57.29577951308232, 3.0])


def shape(c, k=''):
    return ('N',) if c.get(k or 'cols', True) else ()


# ------------------------------------------------------------------------------------------------------- angles
def ang_inputs(c):
    return dict(x=Real(shape(c), **ANG), y=Real(shape(c), **ANG), z=Real((), **ANG))


def ang_call(nv, x, cfg):
    return nv.deg(x.x), nv.rad(x.x), nv.deg(x.x, x.y, x.z), nv.rad(x.x, x.y, x.z), nv.rad(nv.deg(x.x)), nv.deg(nv.rad(x.x)), \
        nv.deg(x.x, x.y), nv.rad(x.z, x.y)


def ang(m, s, out, cfg):
    d, r, ds, rs, a, b, d2, r2 = out
    yield Check('one angle gives one value, several give a tuple', all(isinstance(v, tuple) and len(v) == n for v, n in (
        (ds, 3), (rs, 3), (d2, 2), (r2, 2))) and not isinstance(d, tuple) and not isinstance(r, tuple), 'type of the result')
    t = 0 if m.symbolic else 4e-16

    def eq(label, got, want):
        return Eq(label, m.cols(got, 0), want, t * (1 + abs(want)) if t else 0)
    x, y, z = [m.cols(v, 0) for v in (s.x, s.y, s.z)]
    for v in (d, r, a, b):
        yield Shape('shape', v, shape(cfg))
    for got, want in zip((d,) + tuple(ds) + tuple(d2), (x, x, y, z, x, y)):
        yield eq('degrees are 180/pi times the radians', got, want * 180 / m.pi)
    for got, want in zip((r,) + tuple(rs) + tuple(r2), (x, x, y, z, z, y)):
        yield eq('radians are pi/180 times the degrees', got, want * m.pi / 180)
    yield eq('rad inverts deg', a, x)
    yield eq('deg inverts rad', b, x)


# --------------------------------------------------------------------------------------------------------- unit
class Rows(Vec3):
    """arbitrary columns of r components"""

    def __init__(self, r):
        Vec3.__init__(self)
        self.r, self.shape = r, (r, 'N')

    def gen(self, rng):
        return [mpf(rng.gauss(0, 1)) for _ in range(self.r)]

    def draw(self, rng):
        k = rng.random()
        if k < 0.15:
            return [0.0] * self.r
        if k < 0.3:
            v = [0.0] * self.r
            v[rng.randrange(self.r)] = rng.choice([1.0, -2.0, 1e-30, -1e30, 1e-140])
            return v
        e = 10.0 ** rng.randint(-100, 100)
        return [float(x) * e for x in self.gen(rng)]


def unit_call(nv, x, cfg):
    z = cfg.get('zero')
    return nv.unit(x.v) if z is None else nv.unit(x.v, norm_zero_vector=z) if cfg.get('kw', 1) else nv.unit(x.v, z)


def unit_ens(m, s, u, cfg):
    r = cfg['r']
    yield Shape('shape', u, (r, 'N'))
    v = [m.arr(s.v)[i] for i in range(r)]
    u = [m.arr(u)[i] for i in range(r)]
    q = sum(x * x for x in v)
    L = m.sqrt(q)
    one = 0 * q + 1
    yield Implies(q > 0, Eq('unit length', sum(x * x for x in u), one, 1e-15))
    z = 1 if cfg.get('zero') is None else cfg['zero']
    Ls = one if m.symbolic else L + (q <= 0)
    for i in range(r):
        want = v[i] / (L if m.symbolic else Ls)
        yield Implies(q > 0, Eq('the column divided by its length (component %d)' % i, u[i], want, 1e-15))
        yield Implies(q <= 0, Eq('zero column gives the documented constant (component %d)' % i, u[i], (z if i == 0 else 0) * one, 0))


def nan_call(nv, x, cfg):
    v = np.array(x.v, copy=True)
    v[:, 0] = 0
    return nv.unit(v, norm_zero_vector=np.nan), nv.unit(x.v, norm_zero_vector=np.nan)


def nan_ens(m, s, out, cfg):
    a, b = [np.asarray(v, dtype=float) for v in out]
    q = np.asarray(s.v, dtype=float)
    zero = ~np.any(q != 0, axis=0)
    yield Check('a zero column becomes NaN', bool(np.isnan(a[:, 0]).all() and np.isnan(b[:, zero]).all()), 'not NaN')
    yield Check('the other columns have no NaN', not np.isnan(b[:, ~zero]).any() and not np.isnan(a[:, 1:][:, ~zero[1:]]).any(), 'NaN')


# --------------------------------------------------------------------------------------------------------- mdot
def mdot_inputs(c):
    return dict(A=Mat('N' if c['A'] == 'N' else None), B=Mat('N' if c['B'] == 'N' else None, k=c['k']))


def mdot_call(nv, x, cfg):
    A, B = x.A, x.B
    if cfg['A'] == '1':
        A = A[:, :, None]
    if cfg['B'] == '1':
        B = B[:, :, None]
    return nv.mdot(A, B)


def mdot_ens(m, s, M, cfg):
    k = cfg['k']
    tail = ('N',) if 'N' in (cfg['A'], cfg['B']) else (1,) if '1' in (cfg['A'], cfg['B']) else ()
    yield Shape('shape', M, (3, k) + tail)
    A, B, M = m.cols(s.A, 2), m.cols(s.B, 2), m.cols(M, 2)
    for i in range(3):
        for j in range(k):
            want = sum(A[i, q] * B[q, j] for q in range(3))
            yield Eq('row %d times column %d, for every matrix' % (i, j), M[i, j], want + 0 * M[i, j],
                     0 if m.symbolic else 2e-15 * (1 + sum(abs(A[i, q] * B[q, j]) for q in range(3))))


# ------------------------------------------------------------------------------------------------------ nthroot
def root_inputs(c):
    return dict(x=Real(shape(c), 0, None, glo=0.1, ghi=50.0, edges=[0.0, 1.0, 2.0, 27.0, 1e-12, 1e12, 1e-300, 1e300, 8.0, 1024.0,
                                                                   6378137.0, 1e17]))


def root_call(nv, x, cfg):
    from nvector.util import nthroot
    return nthroot(x.x, cfg['n'])


def root_ens(m, s, y, cfg):
    n = cfg['n']
    yield Shape('shape', y, shape(cfg))
    y, x = m.cols(y, 0), m.cols(s.x, 0)
    p = y
    for _ in range(n - 1):
        p = p * y
    if m.symbolic:
        yield Eq('the root raised to n is the argument', p, x)
    else:
        yield Eq('the root raised to n is the argument', p / (x + (x <= 0)), x / (x + (x <= 0)),
                 1e-15 * n * (1 + np.vectorize(lambda q: abs(sp.mpmath.log(q)), otypes=[object])(x + (x <= 0))))
    yield Le('the root is not negative', 0 * y, y)


N3 = ('N', 1, 3)
CONTRACTS = [
    Contract('degrees and radians', ['util.deg', 'util.rad'], ang_inputs, ang_call, ang,
             [dict(N=N) for N in N3] + [dict(N=None, cols=False)]),
    Contract('unit', ['util.unit'], lambda c: dict(v=Rows(c['r'])), unit_call, unit_ens,
             [dict(N=N, r=3) for N in ('N', 1, 2, 3)] + [dict(N=N, r=r, zero=z, kw=k) for N, r, z, k in (
                 ('N', 3, 2.5, 1), ('N', 3, 0, 0), ('N', 2, None, 1), ('N', 4, 1, 1), ('N', 1, None, 1), (3, 2, -1.0, 1))]),
    Contract('unit of zero columns set to NaN', ['util.unit'], lambda c: dict(v=Rows(3)), nan_call, nan_ens,
             [dict(N=4)], num_only=True),
    Contract('mdot', ['util.mdot'], mdot_inputs, mdot_call, mdot_ens,
             [dict(N=N, A=a, B=b, k=k) for N in N3 for a in 'N10' for b in 'N10' for k in (3, 1) if 'N' in (a, b)] +
             [dict(N=None, A=a, B=b, k=k) for a in '10' for b in '10' for k in (3, 1)]),
    Contract('nthroot', ['util.nthroot'], root_inputs, root_call, root_ens,
             [dict(N='N', n=n) for n in (1, 2, 3, 4, 5, 7)] + [dict(N=1, n=3), dict(N=3, n=2), dict(N=None, n=3, cols=False)]),
]
