"""C05: Euler angles <-> rotation matrices."""
from ..contract import *
from .. import spec as sp


def inputs(c):
    def a(k):
        return AnyAngle(('N',) if k in c.get('cols', 'xyz') and c['N'] is not None else ())
    return dict(x=a('x'), y=a('y'), z=a('z'))


def mats(m, R, cfg):
    """3x3 nested list of columns"""
    return [[m.cols(R[i][j], 0) for j in range(3)] for i in range(3)]


def rot_clauses(m, R, M, cfg, tol=6e-16):
    one = cfg['N'] in (None, 1) or not cfg.get('cols', 'xyz')
    yield Shape('shape of R', R, (3, 3) if one else (3, 3, 'N'))
    for i in range(3):
        for j in range(3):
            yield Eq('product of elementary rotations, entry %d%d' % (i, j), m.cols(R[i, j], 0), M[i][j] + 0 * m.cols(
                R[i, j], 0), tol)
    for i in range(3):
        for j in range(i, 3):
            yield Eq('orthonormal rows %d%d' % (i, j), sum(R[i, k] * R[j, k] for k in range(3)),
                     (1 if i == j else 0) + 0 * R[0, 0], 4 * tol)
    yield Eq('determinant one', sp.det([[R[i, j] for j in range(3)] for i in range(3)]), 1 + 0 * R[0, 0], 8 * tol)


def vary(m, s):
    return [m.cols(s[k], 0) for k in 'xyz']


def xyz_call(nv, x, cfg):
    return nv.xyz2R(x.x, x.y, x.z)


def xyz_ensures(m, s, R, cfg):
    x, y, z = vary(m, s)
    for c in rot_clauses(m, m.arr(R), sp.xyz(m, x, y, z), cfg):
        yield c


def zyx_call(nv, x, cfg):
    return nv.zyx2R(x.z, x.y, x.x)


def zyx_ensures(m, s, R, cfg):
    x, y, z = vary(m, s)
    for c in rot_clauses(m, m.arr(R), sp.zyx(m, z, y, x), cfg):
        yield c


# ----------------------------------------------------------------------------- extraction
def trip_inputs(c):
    s = ('N',) if c['N'] is not None else ()
    e = [0.0, 1e-9, -1e-9, 0.5, -1.5, 1.5, 1e-3, 1.57, -1.5707, 1.5707963, -1.5707962, -1.57079632, 1.570796326]
    full = dict(open_lo=True, edges=[0.0, 1.5707963267948966, -1.5707963267948966, 3.0, -3.0, 3.141592653589793, 1e-9,
                                     2.0, -2.0])
    return dict(x=Real(s, -1, 1, pi_units=True, **full), y=Real(s, -0.5, 0.5, pi_units=True, open_lo=True,
                                                                 open_hi=True, edges=e),
                z=Real(s, -1, 1, pi_units=True, **full))


def trip_keep(m, s, cfg):
    return all(abs(float(v)) < 1.5707963265 for v in np.ravel(s.y)) and all(
        float(v) > -3.14159 for v in np.ravel(s.x)) and all(float(v) > -3.14159 for v in np.ravel(s.z))


def tx_call(nv, x, cfg):
    return nv.R2xyz(nv.xyz2R(x.x, x.y, x.z))


def tz_call(nv, x, cfg):
    return tuple(reversed(nv.R2zyx(nv.zyx2R(x.z, x.y, x.x))))


def trip(m, s, out, cfg):
    for k, v in zip('xyz', out):
        yield Shape('shape of %s' % k, v, () if cfg['N'] in (None, 1) else ('N',))
    t = None if m.symbolic else 2e-15 / m.cos(s.y) + 2e-15
    for k, v in zip('xyz', out):
        got = m.cols(v, 0)
        spec = m.cols(s[k], 0)
        # an angle of exactly pi may come back as -pi: compare direction and range
        yield Eq('angle %s is recovered (sine)' % k, m.sin(got), m.sin(spec), m.cols(t, 0) if t is not None else 0)
        yield Eq('angle %s is recovered (cosine)' % k, m.cos(got), m.cos(spec), m.cols(t, 0) if t is not None else 0)
        yield Le('angle %s >= -pi' % k, -m.pi + 0 * got, got, 1e-15)
        yield Le('angle %s <= pi' % k, got, m.pi + 0 * got, 1e-15)


NS = ['N', 1, 3]
CF = [dict(N=N) for N in (None,) + tuple(NS)]
MIX = [dict(N=N, cols=c) for N in ('N', 3) for c in ('x', 'y', 'z', 'xy')]
CONTRACTS = [
    Contract('xyz2R', ['rotation.xyz2R', 'rotation._atleast_3d'], inputs, xyz_call, xyz_ensures, CF + MIX),
    Contract('zyx2R', ['rotation.zyx2R', 'rotation._atleast_3d'], inputs, zyx_call, zyx_ensures, CF + MIX),
    Contract('R2xyz(xyz2R(x, y, z))', ['rotation.R2xyz', 'rotation.xyz2R'], trip_inputs, tx_call, trip, CF,
             stubs=['xyz2R'], keep=trip_keep),
    Contract('R2zyx(zyx2R(z, y, x))', ['rotation.R2zyx', 'rotation.R2xyz', 'rotation.zyx2R'], trip_inputs, tz_call,
             trip, CF, stubs=['zyx2R'], keep=trip_keep),
]
