"""C06: rotation matrices of the local frames N and L."""
from ..contract import *
from .. import spec as sp
from .c02 import rot, AX


def shape(cfg):
    return (3, 3) if cfg['N'] == 1 else (3, 3, 'N')


def ent(m, R, i, j):
    return m.cols(R[i, j], 0)


def proper(m, R, tol):
    for i in range(3):
        for j in range(i, 3):
            yield Eq('orthonormal columns %d%d' % (i, j), sum(ent(m, R, k, i) * ent(m, R, k, j) for k in range(3)),
                     (1 if i == j else 0) + 0 * ent(m, R, 0, 0), tol)
    yield Eq('determinant one', sp.det([[ent(m, R, i, j) for j in range(3)] for i in range(3)]),
             1 + 0 * ent(m, R, 0, 0), tol)


def down(m, R, n, tol):
    for i in range(3):
        yield Eq('down is minus the n-vector (component %d)' % i, ent(m, R, i, 2), -n[i], tol)


def en_call(nv, x, cfg):
    return nv.n_E2R_EN(x.n, rot(nv, cfg))


def en(m, s, R, cfg):
    R = m.arr(R)
    yield Shape('shape of R_EN', R, shape(cfg))
    for c in proper(m, R, 5e-15):
        yield c
    for c in down(m, R, s.n, 2e-15):
        yield c
    cols = [sp.to_e(cfg['axes'], [ent(m, R, i, j) for i in range(3)]) for j in range(3)]
    e = sp.to_e(cfg['axes'], s.n)
    h = m.sqrt(e[1] * e[1] + e[2] * e[2])
    pole = h * h <= 0
    z = 0 * h
    yield Eq('east is perpendicular to the Earth axis', cols[1][0], z, 2e-15)
    yield Eq('north points towards the Earth axis: its axial component is cos(latitude)',
             cols[0][0], m.where(pole, z, h), 2e-15)
    yield Eq('east (y)', cols[1][1], m.where(pole, z + 1, -e[2] / m.where(pole, z + 1, h)), 2e-15)
    yield Eq('east (z)', cols[1][2], m.where(pole, z, e[1] / m.where(pole, z + 1, h)), 2e-15)
    M = sp.R_EN(m, cfg['axes'], s.n)
    for i in range(3):
        for j in range(3):
            yield Eq('entry %d%d' % (i, j), ent(m, R, i, j), M[i][j], 2e-15)


def el_call(nv, x, cfg):
    return nv.n_E_and_wa2R_EL(x.n, x.wa, rot(nv, cfg))


def el(m, s, R, cfg):
    R = m.arr(R)
    yield Shape('shape of R_EL', R, shape(cfg))
    for c in proper(m, R, 5e-15):
        yield c
    for c in down(m, R, s.n, 2e-15):
        yield c
    if not cfg.get('poles'):
        M = sp.R_EL(m, cfg['axes'], s.n, m.cols(s.wa, 0))
        for i in range(3):
            for j in range(3):
                yield Eq('R_EL = R_EN Rz(wander azimuth), entry %d%d' % (i, j), ent(m, R, i, j), M[i][j], 4e-15)


def el_requires(m, s, cfg):
    e = sp.to_e(cfg['axes'], s.n)
    return [] if cfg.get('poles') else [e[1] * e[1] + e[2] * e[2] > 0]


def el_keep(m, s, cfg):
    # within 1e-7 rad of a pole the longitude of the float n-vector is still exact; nothing to exclude but the pole
    e = sp.to_e(cfg['axes'], s.n)
    return cfg.get('poles') or all(float(v) > 1e-24 for v in np.ravel(e[1] * e[1] + e[2] * e[2]))


def wa_inputs(c):
    return dict(n=Unit(), wa=AnyAngle(('N',) if c['wa'] == 'cols' else ()))


def inv_inputs(c):
    return dict(R=Mat(c['cols']))


def inv_shape(cfg):
    return (3, 1) if cfg['cols'] != 'N' else (3, 'N')


def inv_call(nv, x, cfg):
    return getattr(nv, cfg['fn'])(x.R)


def inv(m, s, n, cfg):
    yield Shape('shape of n_E', n, inv_shape(cfg))
    for i in range(3):
        yield Eq('n-vector is minus the third column (component %d)' % i, n[i], -m.cols(s.R[i, 2], 0), 0)


def back_call(nv, x, cfg):
    if cfg['fn'] == 'R_EN2n_E':
        return nv.R_EN2n_E(nv.n_E2R_EN(x.n, rot(nv, cfg)))
    return nv.R_EL2n_E(nv.n_E_and_wa2R_EL(x.n, x.wa, rot(nv, cfg)))


def back(m, s, n, cfg):
    yield Shape('shape of n_E', n, (3, 'N'))
    yield Eq('the n-vector is recovered from the matrix', n, s.n, 3e-15)


def dcall(nv, x, cfg):
    R = nv.E_rotation('e')
    return (nv.n_E2R_EN(x.n), nv.n_E2R_EN(x.n, R), nv.n_E_and_wa2R_EL(x.n, x.wa),
            nv.n_E_and_wa2R_EL(x.n, x.wa, R_Ee=R))


def densures(m, s, out, cfg):
    for i, w in enumerate(('R_EN', 'R_EL')):
        yield Eq('default axes are e: ' + w, m.arr(out[2 * i]), m.arr(out[2 * i + 1]), 0)


def ax_call(nv, x, cfg):
    return nv.E_rotation('e'), nv.E_rotation('E'), nv.E_rotation()


def ax(m, s, out, cfg):
    yield Shape('shape', out[0], (3, 3))
    for k, A in ((0, sp.AXES['e']), (1, sp.AXES['E']), (2, sp.AXES['e'])):
        yield Eq('E_rotation matrix %d' % k, m.arr(out[k]), m.arr(np.array(A, dtype=float)), 0)


CF = [dict(N=N, axes=a) for a in AX for N in ('N', 1, 3)]
FN = ['rotation.n_E2R_EN', 'util.mdot', 'util.unit']
FL = ['rotation.n_E_and_wa2R_EL', 'rotation.n_E2lat_lon', 'rotation.xyz2R']
CONTRACTS = [
    Contract('n_E2R_EN', FN, lambda c: dict(n=Unit()), en_call, en, CF),
    Contract('n_E_and_wa2R_EL', FL, wa_inputs, el_call, el,
             [dict(c, wa=w) for c in CF for w in ('cols', 'scalar')], el_requires, keep=el_keep),
    Contract('n_E_and_wa2R_EL at and near poles', FL, wa_inputs, el_call, el,
             [dict(c, wa='cols', poles=True) for c in CF], el_requires),
    Contract('R_EN2n_E, R_EL2n_E', ['rotation.R_EN2n_E', 'rotation.R_EL2n_E'], inv_inputs, inv_call, inv,
             [dict(N=N, cols=c, fn=f) for f in ('R_EN2n_E', 'R_EL2n_E') for N, c in (
                 ('N', 'N'), (3, 'N'), (1, 'N'), (None, 1))]),
    Contract('n-vector from its frame', ['rotation.R_EN2n_E', 'rotation.R_EL2n_E'] + FN + FL,
             lambda c: dict(n=Unit(), wa=AnyAngle()), back_call, back,
             [dict(c, fn=f) for f in ('R_EN2n_E', 'R_EL2n_E') for c in CF]),
    Contract('default axes', FN + FL, lambda c: dict(n=Unit(), wa=AnyAngle()), dcall, densures, [dict(N='N')]),
    Contract('E_rotation', ['rotation.E_rotation'], lambda c: dict(), ax_call, ax, [dict(N=None)]),
]
