"""C10: intersection of two great circles."""
from ..contract import *
from .. import spec as sp
from .c02 import DEPTHS

NAMES = ('A1', 'A2', 'B1', 'B2')


def inputs(c):
    one = c.get('one', ())
    return dict((k, Unit(1 if k in one else 'N')) for k in NAMES)


def triple(m, s):
    NA, NB = sp.cross(s.A1, s.A2), sp.cross(s.B1, s.B2)
    return NA, NB, sp.cross(NA, NB)


def requires(m, s, cfg):
    NC = triple(m, s)[2]
    return [sp.dot(NC, NC) > 0]


def keep(m, s, cfg):
    return all(float(v) > 1e-8 for v in np.ravel(sp.dot(*[triple(m, s)[2]] * 2)))


def call(nv, x, cfg):
    return nv.intersect((x.A1, x.A2), (x.B1, x.B2))


def clauses(m, s, n):
    NA, NB, NC = triple(m, s)
    L = sp.norm(m, NC)
    z = 0 * n[0]
    t = 0 if m.symbolic else 3e-15 * (1 + 1 / L)
    yield Eq('unit length', sp.dot(n, n), 1 + z, 5e-15)
    yield Eq('perpendicular to the normal of the first great circle', sp.dot(n, NA), z, t)
    yield Eq('perpendicular to the normal of the second great circle', sp.dot(n, NB), z, t)
    yield Le('not on the opposite hemisphere from the first point of the first path', z,
             sp.dot(n, s.A1), 0 if m.symbolic else 1e-15)


def warned_of(m):
    return any('NaN' in t or 'ntersection' in t for t, _ in m.warned)


def ensures(m, s, n, cfg):
    yield Shape('shape', n, (3, 'N'))
    yield Check('no warning', not warned_of(m), 'warning although no result is NaN')
    for c in clauses(m, s, n):
        yield c


# ------------------------------------------------------------------ undefined exactly for equal great circles
def nan(m, s, n, cfg):
    warned = warned_of(m)
    NC = triple(m, s)[2]
    q = sp.dot(NC, NC)
    bad = sp.norm(m, NC) <= 0
    for i in range(3):
        yield Iff('component %d is NaN iff the great circles are equal or degenerate' % i, m.isnan(n[i]), bad,
                  near=None if m.symbolic else (q < 1e-28))
    if m.symbolic and cfg['N'] != 1:
        pass            # with several columns: all good -> no warning and all bad -> a warning, below
    elif m.symbolic:
        yield Iff('a warning is given iff some result is NaN', m.true() if warned else m.not_(m.true()), m.not_(m.allcols(m.not_(bad))))
    else:
        yield Check('a warning is given iff some result is NaN', warned == bool(np.any(m.isnan(m.arr(n)))), '')


def eq_inputs(c):
    return dict(A1=Unit(), A2=Unit())


EQ = {'same': lambda x: (x.A1, x.A2), 'reversed': lambda x: (x.A2, x.A1), 'opposite': lambda x: (-x.A1, x.A2),
      'degenerate': lambda x: (x.A1, x.A1), 'antipodal': lambda x: (x.A2, -x.A2)}


def eq_call(nv, x, cfg):
    return nv.intersect((x.A1, x.A2), EQ[cfg['kind']](x))


def eq(m, s, n, cfg):
    yield Shape('shape', n, (3, 'N'))
    yield Check('a warning is given', bool(m.warned), 'no warning')
    for i in range(3):
        yield Iff('component %d is NaN' % i, m.isnan(n[i]), m.true())


# ------------------------------------------------------------------------------------------------ GeoPath
def oo_inputs(c):
    d = inputs(c)
    for k in NAMES:
        d['z' + k] = Real(('N',) if c['z'] == 'cols' else (), edges=DEPTHS)
    d['a'], d['f'] = SemiAxis(), Flat(0.5)
    return d


def oo_call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])
    p = [nv.Nvector(x[k], x['z' + k], fr) for k in NAMES]
    r = nv.GeoPath(p[0], p[1]).intersect(nv.GeoPath(p[2], p[3]))
    return r.normal, r.z, r.frame is fr and type(r).__name__ == 'Nvector'


def oo(m, s, out, cfg):
    n, z, ok = out
    yield Check('result is an n-vector in the frame of the path', ok, 'frame or type')
    yield Shape('shape', n, (3, 'N'))
    for c in clauses(m, s, n):
        yield c
    zs = [s['z' + k] for k in NAMES]
    sc = 1 + sum(m.abs(q) for q in zs)
    yield Eq('depth is the mean of the depths of the end points', z / sc, sum(zs) / 4 / sc, 1e-15)


def draw_mix(cfg, rng, n):
    """some columns with equal great circles, exactly"""
    u = Unit()
    out = {k: [] for k in NAMES}
    for _ in range(n):
        c = [u.draw(rng) for _ in range(4)]
        k = rng.random()
        if k < 0.25:
            c[2:] = [c[1], c[0]]
        elif k < 0.4:
            c[2:] = [c[0], c[1]]
        elif k < 0.5:
            c[1] = c[0]
        for q, v in zip(NAMES, c):
            out[q].append(v)
    return {k: np.array(v).T for k, v in out.items()}


P = [('A1', 'A2'), ('A1', 'B1'), ('B1', 'B2')]
F = ['core.intersect', 'util.unit']
CONTRACTS = [
    Contract('intersect', F, inputs, call, ensures,
             [dict(N=N) for N in ('N', 1, 3)] + [dict(N=N, one=o) for N in ('N', 3) for o in (
                 ('A1', 'A2'), ('B1', 'B2'), ('A1',))], requires, pairs=P, keep=keep, trials=2),
    Contract('intersect, undefined cases', F, inputs, call, nan, [dict(N=N) for N in ('N', 1, 3)], draw=draw_mix),
    Contract('intersect, equal great circles', F, eq_inputs, eq_call, eq,
             [dict(N=N, kind=k) for N in ('N', 1) for k in EQ]),
    Contract('GeoPath.intersect', ['objects.GeoPath.intersect', 'objects.GeoPath.nvectors'] + F, oo_inputs, oo_call,
             oo, [dict(N=N, axes=a, z=z) for N in ('N', 1, 3) for a, z in (('e', 'cols'), ('E', 'scalar'))], requires,
             pairs=P, keep=keep),
]
