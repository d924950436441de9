"""C02: n-vector and depth -> ECEF position."""
from ..contract import *
from .. import spec as sp

AX = ('e', 'E')
DEPTHS = [0.0, -100.0, 1000.0, -1e6, 4e6, -1e9, 0.5, 1e-3]


def rot(nv, cfg):
    return nv.E_rotation(cfg['axes']) if cfg['axes'] else None


def inputs(c):
    d = dict(n=Unit() if c.get('unit', True) else Vec3(), a=SemiAxis(), f=Flat())
    if c['depth'] == 'cols':
        d['z'] = Real(('N',), edges=DEPTHS)
    elif c['depth'] == 'scalar':
        d['z'] = Real((), edges=DEPTHS)
    return d


def call(nv, x, cfg):
    if cfg['depth'] == 'default':
        return nv.n_EB_E2p_EB_E(x.n, a=x.a, f=x.f, R_Ee=rot(nv, cfg))
    return nv.n_EB_E2p_EB_E(x.n, x.z, x.a, x.f, rot(nv, cfg))


def on_ellipsoid(m, p, n, z, a, f, tol):
    """p (e frame) lies z along -n from a surface point whose outward unit normal is n"""
    g = 1 - f
    b = a * g
    q = [p[i] + z * n[i] for i in range(3)]
    grad = [q[0] / (g * g), q[1], q[2]]
    yield Eq('foot point lies on the ellipsoid', (q[0] / b) * (q[0] / b) + (q[1] * q[1] + q[2] * q[2]) / (a * a),
             1 + 0 * q[0], tol)
    cr = sp.cross(grad, n)
    for i in range(3):
        yield Eq('n is normal to the ellipsoid at the foot point (component %d)' % i, cr[i] / a, 0 * cr[i], tol)
    yield Le('n points outward', 0 * q[0], sp.dot(grad, n), 0, strict=True)


def ensures(m, s, p, cfg):
    yield Shape('shape of p_EB_E', p, (3, 'N'))
    e = sp.to_e(cfg['axes'], s.n)
    if not cfg.get('unit', True):
        L = sp.norm(m, e)
        e = [x / L for x in e]
    z = s.z if cfg['depth'] != 'default' else m.c(0)
    g = 1 - s.f
    tol = 3e-15 * (1 + m.abs(z) / s.a) * 4 / (g * g * g) if not m.symbolic else 0
    for c in on_ellipsoid(m, sp.to_e(cfg['axes'], p), e, z, s.a, s.f, tol):
        yield c
    # the same in closed form (the postcondition callers use)
    q = m.vec(sp.n2p(m, cfg['axes'], s.n, z, s.a, s.f))
    yield Eq('closed form', p, q, s.a * tol)


def requires(m, s, cfg):
    if cfg.get('unit', True):
        return []
    return [sp.dot(s.n, s.n) > 0]


def keep(m, s, cfg):
    # the runtime companion avoids vectors so short that rounding of the norm matters
    return all(float(v) > 1e-12 for v in np.ravel(sp.dot(s.n, s.n)))


def dcall(nv, x, cfg):
    return (nv.n_EB_E2p_EB_E(x.n), nv.n_EB_E2p_EB_E(x.n, 0, 6378137, 1.0 / 298.257223563, nv.E_rotation('e')))


def densures(m, s, out, cfg):
    p, q = out
    yield Shape('shape of p_EB_E', p, (3, 'N'))
    yield Eq('defaults are depth 0, WGS84 and axes e', p, q, 0)


CF = [dict(N=N, axes=ax, depth=d) for ax in AX for N in ('N', 1, 3) for d in ('cols', 'scalar')]
CONTRACTS = [
    Contract('n_EB_E2p_EB_E', ['core.n_EB_E2p_EB_E', 'util.unit', 'util._check_length_deviation'], inputs, call,
             ensures, CF + [dict(N=N, axes='e', depth='default') for N in ('N', 1)] +
             [dict(N='N', axes=None, depth='cols')], requires),
    Contract('n_EB_E2p_EB_E, not normalised', ['core.n_EB_E2p_EB_E', 'util.unit'], inputs, call, ensures,
             [dict(N=N, axes='e', depth='cols', unit=False) for N in ('N', 1)], requires, keep=keep),
    Contract('n_EB_E2p_EB_E defaults', ['core.n_EB_E2p_EB_E'], lambda c: dict(n=Unit()), dcall, densures,
             [dict(N='N')]),
]
