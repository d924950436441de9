"""C04: delta vectors between two positions."""
from ..contract import *
from .. import spec as sp
from .c02 import rot, AX, DEPTHS, on_ellipsoid
from .c03 import region


def inputs(c):
    d = dict(nA=Unit(1 if c.get('A1') else 'N'), nB=Unit(1 if c.get('B1') else 'N'), a=SemiAxis(), f=Flat(0.5))
    shp = ('N',) if c['depth'] == 'cols' else ()
    if c['depth'] != 'default':
        d['zA'] = Real(shp, edges=DEPTHS)
        d['zB'] = Real(shp, edges=DEPTHS)
    return d


def depths(m, s, cfg):
    return (m.c(0), m.c(0)) if cfg['depth'] == 'default' else (s.zA, s.zB)


def call(nv, x, cfg):
    if cfg['depth'] == 'default':
        return nv.n_EA_E_and_n_EB_E2p_AB_E(x.nA, x.nB, a=x.a, f=x.f, R_Ee=rot(nv, cfg))
    return nv.n_EA_E_and_n_EB_E2p_AB_E(x.nA, x.nB, x.zA, x.zB, x.a, x.f, rot(nv, cfg))


def tol(m, s, *zs):
    if m.symbolic:
        return 0
    z = sum(m.abs(v) for v in zs)
    g = 1 - s.f
    return 1e-14 * (s.a / (g * g) + z)


def ensures(m, s, p, cfg):
    zA, zB = depths(m, s, cfg)
    pA = sp.n2p(m, cfg['axes'], s.nA, zA, s.a, s.f)
    pB = sp.n2p(m, cfg['axes'], s.nB, zB, s.a, s.f)
    yield Shape('shape of p_AB_E', p, (3, 'N'))
    for i in range(3):
        yield Eq('p_AB_E = p_EB_E - p_EA_E (component %d)' % i, p[i], pB[i] - pA[i], tol(m, s, zA, zB))


def anti_call(nv, x, cfg):
    R = rot(nv, cfg)
    return (nv.n_EA_E_and_n_EB_E2p_AB_E(x.nA, x.nB, x.zA, x.zB, x.a, x.f, R),
            nv.n_EA_E_and_n_EB_E2p_AB_E(x.nB, x.nA, x.zB, x.zA, x.a, x.f, R),
            nv.n_EA_E_and_n_EB_E2p_AB_E(x.nA, x.nA, x.zA, x.zA, x.a, x.f, R))


def anti(m, s, out, cfg):
    ab, ba, aa = out
    yield Eq('p_AB_E = -p_BA_E', ab, -ba, 0)
    yield Eq('p_AA_E = 0', aa, 0 * aa, 0)


# --------------------------------------------------------------- position from delta
def pos_inputs(c):
    d = dict(nA=Unit(), p=Vec3(1 if c.get('p1') else 'N', scale=3e5,
                               edges=((0, 0, 0), (1000, 0, 0), (0, -2000, 0), (3000, 2000, 100))),
             zA=Real(('N',) if c['depth'] == 'cols' else (), edges=DEPTHS), a=SemiAxis(), f=Flat(0.5))
    return d


def pos_call(nv, x, cfg):
    return nv.n_EA_E_and_p_AB_E2n_EB_E(x.nA, x.p, x.zA, x.a, x.f, rot(nv, cfg))


def pos_target(m, s, cfg):
    pA = sp.n2p(m, cfg['axes'], s.nA, s.zA, s.a, s.f)
    return [pA[i] + s.p[i] for i in range(3)]


def pos_ensures(m, s, out, cfg):
    n, z = out
    yield Shape('shape of n_EB_E', n, (3, 'N'))
    yield Shape('shape of z_EB', z, ('N',))
    P = pos_target(m, s, cfg)
    if m.symbolic:
        sn, sz = sp.p2n(m, cfg['axes'], P, s.a, s.f)
        for i in range(3):
            yield Eq('n-vector of p_EA_E + p_AB_E (component %d)' % i, n[i], sn[i])
        yield Eq('depth of p_EA_E + p_AB_E', z, sz)
    else:
        q = sp.n2p(m, cfg['axes'], n, z, s.a, s.f)
        t = 3e-14 * (s.a + m.abs(s.zA) + sum(m.abs(s.p[i]) for i in range(3)) + m.abs(z))
        t = t if float(s.f) < 0.02 else 1e4 * t
        for i in range(3):
            yield Eq('n_EB_E, z_EB are the position p_EA_E + p_AB_E (component %d)' % i, q[i], P[i], t)


def far(m, s, P, axes):
    q, p, E = region(m, sp.to_e(axes, P), s.a, s.f)
    return all(float(v) > float(E * E) + 0.1 for v in np.ravel(p + q))


def pos_keep(m, s, cfg):
    return far(m, s, pos_target(m, s, cfg), cfg['axes'])


def pos_requires(m, s, cfg):
    return []


def trip_call(nv, x, cfg):
    R = rot(nv, cfg)
    p = nv.n_EA_E_and_n_EB_E2p_AB_E(x.nA, x.nB, x.zA, x.zB, x.a, x.f, R)
    return nv.n_EA_E_and_p_AB_E2n_EB_E(x.nA, p, x.zA, x.a, x.f, R)


def trip(m, s, out, cfg):
    n, z = out
    if m.symbolic:
        # C03: p2n inverts n2p, so the position of B is (n_B, z_B)
        pB = sp.n2p(m, cfg['axes'], s.nB, s.zB, s.a, s.f)
        sn, sz = sp.p2n(m, cfg['axes'], pB, s.a, s.f)
        for i in range(3):
            yield Eq('A + delta = B (n-vector, component %d)' % i, n[i], sn[i])
        yield Eq('A + delta = B (depth)', z, sz)
    else:
        t = 1e-12 * (1 + (m.abs(s.zA) + m.abs(s.zB)) / s.a)
        t = t if float(s.f) < 0.02 else 1e3 * t
        yield Eq('A + delta = B (n-vector)', n, s.nB, t)
        yield Eq('A + delta = B (depth)', z / s.a, s.zB / s.a + 0 * z, t)


def trip_keep(m, s, cfg):
    return (float(s.f) < 0.3 and all(float(v) < 0.5 * float(s.a) for v in np.ravel(s.zB)) and
            far(m, s, sp.n2p(m, cfg['axes'], s.nB, s.zB, s.a, s.f), cfg['axes']))


def dcall(nv, x, cfg):
    R = nv.E_rotation('e')
    a, f = 6378137, 1.0 / 298.257223563
    p = nv.n_EA_E_and_n_EB_E2p_AB_E(x.nA, x.nB)
    n, z = nv.n_EA_E_and_p_AB_E2n_EB_E(x.nA, x.p)
    n2, z2 = nv.n_EA_E_and_p_AB_E2n_EB_E(x.nA, x.p, 0, a, f, R)
    return p, nv.n_EA_E_and_n_EB_E2p_AB_E(x.nA, x.nB, 0, 0, a, f, R), n, n2, z, z2


def densures(m, s, out, cfg):
    for i, w in enumerate(('p_AB_E', 'n_EB_E', 'z_EB')):
        yield Eq('defaults are depth 0, WGS84, axes e: ' + w, out[2 * i], out[2 * i + 1], 0)


ST = ['n_EB_E2p_EB_E', 'p_EB_E2n_EB_E']
F1, F2 = 'core.n_EA_E_and_n_EB_E2p_AB_E', 'core.n_EA_E_and_p_AB_E2n_EB_E'
CONTRACTS = [
    Contract('p_AB_E', [F1], inputs, call, ensures,
             [dict(N=N, axes=ax, depth=d) for ax in AX for N in ('N', 1, 3) for d in ('cols', 'scalar')] +
             [dict(N=N, axes='e', depth='default') for N in ('N', 3)] +
             [dict(N='N', axes='E', depth='cols', A1=True), dict(N='N', axes='e', depth='cols', B1=True),
              dict(N='N', axes=None, depth='cols')], stubs=ST, pairs=[('nA', 'nB')]),
    Contract('antisymmetry', [F1], inputs, anti_call, anti,
             [dict(N=N, axes=ax, depth='cols') for ax in AX for N in ('N', 1)], stubs=ST, pairs=[('nA', 'nB')]),
    Contract('n_EA_E_and_p_AB_E2n_EB_E', [F2], pos_inputs, pos_call, pos_ensures,
             [dict(N=N, axes=ax, depth=d) for ax in AX for N in ('N', 1, 3) for d in ('cols', 'scalar')] +
             [dict(N='N', axes='e', depth='cols', p1=True), dict(N='N', axes=None, depth='cols')],
             stubs=ST, keep=pos_keep),
    Contract('A + (B - A) = B', [F1, F2], inputs, trip_call, trip,
             [dict(N=N, axes=ax, depth='cols') for ax in AX for N in ('N', 1, 3)], stubs=ST, keep=trip_keep,
             pairs=[('nA', 'nB')]),
    Contract('defaults', [F1, F2], lambda c: dict(nA=Unit(), nB=Unit(), p=Vec3(scale=3e5)), dcall, densures,
             [dict(N='N')], stubs=ST),
]
