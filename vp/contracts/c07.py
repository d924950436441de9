"""C07: great-circle and Euclidean distance."""
from ..contract import *
from .. import spec as sp


def inputs(c):
    d = dict(nA=Unit(1 if c.get('A1') else 'N'), nB=Unit(1 if c.get('B1') else 'N'))
    if c['rad'] != 'default':
        d['r'] = Radius(('N',) if c['rad'] == 'cols' else ())
    return d


def radius(m, s, cfg):
    return s.r if cfg['rad'] != 'default' else m.c(6371009.0)


def gc_call(nv, x, cfg):
    if cfg['rad'] == 'default':
        return nv.great_circle_distance(x.nA, x.nB), nv.great_circle_distance(x.nB, x.nA)
    return nv.great_circle_distance(x.nA, x.nB, x.r), nv.great_circle_distance(x.nB, x.nA, radius=x.r)


def gc(m, s, out, cfg):
    d, d2 = out
    r = radius(m, s, cfg)
    yield Shape('shape of distance', d, ('N',))
    th = d / r
    z = 0 * th
    c, cr = sp.dot(s.nA, s.nB), sp.cross(s.nA, s.nB)
    sn = sp.norm(m, cr)
    t = 1e-15
    yield Le('distance >= 0', z, th, 0)
    yield Le('distance <= pi radius', th, m.pi + z, t)
    yield Eq('cosine of the angle is n_A . n_B', m.cos(th), c + z, 2e-15)
    yield Eq('sine of the angle is |n_A x n_B|', m.sin(th), sn + z, 2e-15)
    yield Eq('radius times the angle between the n-vectors', th, m.atan2(sn, c) + z, t)
    yield Eq('symmetric', d2 / r, th, t)


def same_call(nv, x, cfg):
    return nv.great_circle_distance(x.n, x.n, x.r), nv.great_circle_distance(x.n, -x.n, x.r), \
        nv.euclidean_distance(x.n, x.n, x.r), nv.euclidean_distance(x.n, -x.n, x.r)


def same(m, s, out, cfg):
    d0, d1, e0, e1 = out
    yield Eq('zero for equal positions', d0, 0 * d0, 0)
    yield Eq('pi * radius for antipodal positions', d1 / s.r, m.pi + 0 * d1, 5e-16)
    yield Eq('chord is zero for equal positions', e0, 0 * e0, 0)
    yield Eq('chord is the diameter for antipodal positions', e1 / s.r, 2 + 0 * e1, 1e-15)


def zero_call(nv, x, cfg):
    return nv.great_circle_distance(x.nA, x.nB, x.r)


def zero(m, s, d, cfg):
    """zero only for equal positions: sin(d/(2r))^2 = |n_A - n_B|^2 / 4"""
    dif = [s.nA[i] - s.nB[i] for i in range(3)]
    th = d / s.r
    h = m.sin(th / 2)
    yield Eq('chord identity of the great-circle distance: 4 sin^2(angle/2) = |n_A - n_B|^2', 4 * h * h,
             sp.dot(dif, dif) + 0 * th, 4e-15)


def eu_call(nv, x, cfg):
    if cfg['rad'] == 'default':
        return (nv.euclidean_distance(x.nA, x.nB), nv.euclidean_distance(x.nB, x.nA),
                nv.great_circle_distance(x.nA, x.nB))
    return (nv.euclidean_distance(x.nA, x.nB, x.r), nv.euclidean_distance(x.nB, x.nA, radius=x.r),
            nv.great_circle_distance(x.nA, x.nB, x.r))


def eu(m, s, out, cfg):
    e, e2, d = out
    r = radius(m, s, cfg)
    yield Shape('shape of distance', e, ('N',))
    dif = [s.nA[i] - s.nB[i] for i in range(3)]
    ch = sp.norm(m, dif)
    z = 0 * e
    yield Eq('radius times the chord', e / r, ch + z, 4e-16 if m.symbolic else 1e-15 * ch + 1e-300 + m.abs(z))
    yield Eq('symmetric', e2, e, 0)
    yield Le('non-negative', z, e, 0)
    yield Eq('chord = 2 radius sin(angle / 2)', e / r, 2 * m.sin(d / r / 2), 2e-15)


def draw_small(cfg, rng, n):
    """separations from 1e-15 to 1e-3 of a radian, and the same distances from the antipode"""
    A, B = [], []
    for _ in range(n):
        u = Unit().draw(rng)
        g = [rng.gauss(0, 1) for _ in range(3)]
        d = sum(a * b for a, b in zip(g, u))
        t = [a - d * b for a, b in zip(g, u)]
        q = math.sqrt(sum(x * x for x in t))
        e = 10.0 ** rng.uniform(-15, -3)
        sgn = rng.choice([1, -1])
        w = [sgn * (a + e * b / q) for a, b in zip(u, t)]
        q = math.sqrt(sum(x * x for x in w))
        A.append(u)
        B.append([x / q for x in w])
    return dict(nA=np.array(A).T, nB=np.array(B).T, r=np.array(rng.choice([6371009.0, 1.0])))


N3 = ('N', 1, 3)
CF = [dict(N=N, rad=r) for N in N3 for r in ('scalar', 'cols')] + [dict(N=N, rad='default') for N in ('N', 1)] + [
    dict(N=N, rad=r, **{k: True}) for N in ('N', 3) for k in ('A1', 'B1') for r in ('scalar', 'cols')]
P = [('nA', 'nB')]
CONTRACTS = [
    Contract('great_circle_distance', ['core.great_circle_distance'], inputs, gc_call, gc, CF, pairs=P, trials=2),
    Contract('equal and antipodal positions', ['core.great_circle_distance', 'core.euclidean_distance'],
             lambda c: dict(n=Unit(), r=Radius()), same_call, same, [dict(N=N) for N in N3]),
    Contract('zero only for equal positions', ['core.great_circle_distance'], inputs, zero_call, zero,
             [dict(N=N, rad='scalar') for N in N3], pairs=P),
    Contract('euclidean_distance', ['core.euclidean_distance', 'core.great_circle_distance'], inputs, eu_call, eu, CF,
             pairs=P, stubs=['great_circle_distance']),
    Contract('tiny and nearly antipodal separations (floating point)', ['core.great_circle_distance'], inputs,
             gc_call, gc, [dict(N=N, rad='scalar') for N in N3], draw=draw_small, num_only=True, trials=3),
    Contract('tiny and nearly antipodal chords (floating point)', ['core.euclidean_distance'], inputs,
             eu_call, eu, [dict(N=N, rad='scalar') for N in N3], draw=draw_small, num_only=True, trials=3),
]
