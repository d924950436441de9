"""C14: mean position."""
from ..contract import *
from .. import spec as sp
from .c02 import DEPTHS


def inputs(c):
    return dict(n=Unit(), y=Unit(1))


def total(m, s):
    return [m.cols(m.sumcols(s.n[i]), 0).reshape(1) for i in range(3)]


def requires(m, s, cfg):
    S = total(m, s)
    return [sp.dot(S, S) > 0]


def keep(m, s, cfg):
    S = total(m, s)
    return all(float(v) > 1e-8 for v in np.ravel(sp.dot(S, S)))


def call(nv, x, cfg):
    return nv.mean_horizontal_position(x.n)


def spread(m, s, y):
    """sum over the positions of the squared chord distance to y"""
    d = [s.n[i] - y[i] for i in range(3)]
    return m.cols(m.sumcols(sp.dot(d, d)), 0)


def direction(m, s, x):
    S = total(m, s)
    L = sp.norm(m, S)
    z = 0 * x[0]
    t = 0 if m.symbolic else 1e-15 * (2 + s.n.shape[1] * 2 / L)
    yield Shape('shape', x, (3, 1))
    yield Eq('unit length', sp.dot(x, x), 1 + z, 4e-15)
    for i in range(3):
        yield Eq('along the sum of the n-vectors (component %d)' % i, x[i], S[i] / L, t)


def ensures(m, s, x, cfg):
    for c in direction(m, s, x):
        yield c
    S = total(m, s)
    L = sp.norm(m, S)
    # Cauchy-Schwarz: (S . y) <= |S|
    w = sp.cross(S, s.y)
    yield Eq('identity of Lagrange', sp.dot(S, S) - sp.dot(S, s.y) * sp.dot(S, s.y), sp.dot(w, w),
             0 if m.symbolic else 1e-14 * m.Nt * m.Nt)
    t = 0 if m.symbolic else 1e-13 * m.Nt
    yield Eq('sum of the squared chord distances to the mean', spread(m, s, x), 2 * m.Nt - 2 * L, t)
    yield Eq('sum of the squared chord distances to another point', spread(m, s, s.y), 2 * m.Nt - 2 * sp.dot(S, s.y), t)


def best(m, s, x, cfg):
    yield Le('no other unit vector has a smaller sum of squared chord distances', spread(m, s, x), spread(m, s, s.y),
             0 if m.symbolic else 1e-13 * m.Nt)


def cuts(m, s, cfg):
    S = total(m, s)
    L = sp.norm(m, S)
    p, w = sp.dot(S, s.y), sp.cross(S, s.y)
    yield Cut('L', L, [Le('0 < |S|', 0 * L, L, strict=True)], rule=(2, sp.dot(S, S)))
    yield Cut('w', m.vec(w), unfold=True)
    yield Cut('p', p, unfold=True)
    yield Eq('identity of Lagrange', L * L - p * p, sp.dot(w, w))
    yield Le('0 <= |w|^2', 0 * p, sp.dot(w, w))
    yield Le('S . y squared', p * p, L * L)
    yield Le('S . y', p, L)


def perm_call(nv, x, cfg):
    k = list(range(cfg['N']))
    return [nv.mean_horizontal_position(x.n[:, q]) for q in (k, k[::-1], k[1:] + k[:1])]


def perm(m, s, out, cfg):
    L = sp.norm(m, total(m, s))
    for i in range(3):
        for q in (1, 2):
            yield Eq('independent of the order (component %d)' % i, out[q][i], out[0][i], 0 if m.symbolic else 1e-15 *
                     (2 + 2 * s.n.shape[1] / L))


def same_call(nv, x, cfg):
    n = x.n + 0 * x.w
    if cfg.get('oo'):
        return nv.Nvector(n, 0.0, nv.FrameE()).mean().normal
    return nv.mean_horizontal_position(n)


def same(m, s, x, cfg):
    yield Shape('shape', x, (3, 1))
    for i in range(3):
        yield Eq('the mean of equal positions is that position (component %d)' % i, x[i], s.n[i], 4e-15)


# ------------------------------------------------------------------------------------------------------ objects
def oo_inputs(c):
    return dict(n=Unit(), z=Real(('N',) if c['z'] == 'cols' else (), edges=DEPTHS), a=SemiAxis(), f=Flat(0.5))


def oo_call(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])
    p = nv.Nvector(x.n, x.z, fr)
    r = p.mean()
    return r.normal, r.z, r.frame is fr and type(r).__name__ == 'Nvector'


def oo(m, s, out, cfg):
    n, z, ok = out
    yield Check('result is an n-vector in the frame of the positions', ok, 'frame or type')
    for c in direction(m, s, n):
        yield c
    z = m.cols(z, 0)
    if cfg['z'] == 'cols':
        sc = m.sumcols(m.abs(s.z)) / m.Nt + 1
        yield Eq('depth is the arithmetic mean of the depths', z / sc, m.sumcols(s.z) / m.Nt / sc, 1e-14)
    else:
        yield Eq('depth is the common depth', z, m.cols(s.z, 0), 0)


F = ['core.mean_horizontal_position', 'util.unit']
N3 = ('N', 1, 2, 3)
CONTRACTS = [
    Contract('mean_horizontal_position', F, inputs, call, ensures, [dict(N=N) for N in N3], requires, keep=keep,
             pairs=[('n', 'y')]),
    Contract('mean_horizontal_position is the best', F, inputs, call, best, [dict(N=N) for N in ('N', 1)], requires, keep=keep,
             pairs=[('n', 'y')], cuts=cuts),
    Contract('mean_horizontal_position, order', F, lambda c: dict(n=Unit()), perm_call, perm, [dict(N=2), dict(N=3), dict(N=4)],
             requires, keep=keep),
    Contract('mean of equal positions', F + ['objects.Nvector.mean'], lambda c: dict(n=Unit(1), w=Real(('N',))), same_call,
             same, [dict(N=N, oo=oo) for N in N3 for oo in (0, 1)]),
    Contract('Nvector.mean', F + ['objects.Nvector.mean'], oo_inputs, oo_call, oo,
             [dict(N=N, axes=a, z=z) for N in N3 for a, z in (('e', 'cols'), ('E', 'cols'), ('e', 'scalar'))], requires,
             keep=keep),
]
