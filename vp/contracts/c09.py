"""C09: interpolation between two positions."""
from ..contract import *
from .. import spec as sp
from .c02 import DEPTHS


def t_dom(cols):
    return Real(('N',) if cols else (), 0, 1, edges=[0.0, 1.0, 0.5, 0.25, 1e-9, 1 - 1e-9])


def inputs(c):
    return dict(nA=Unit(1 if c.get('A1') else 'N'), nB=Unit(1 if c.get('B1') else 'N'), t=t_dom(c['t'] == 'cols'))


def not_antipodal(m, s, cfg):
    return [sp.dot(s.nA, s.nB) > -1]


def keep(m, s, cfg):
    return all(float(v) > -0.999999 for v in np.ravel(sp.dot(s.nA, s.nB)))


def chord(m, s):
    return [s.nA[i] + s.t * (s.nB[i] - s.nA[i]) for i in range(3)]


def cuts(m, s, cfg):
    c = chord(m, s)
    q = sp.dot(s.nA, s.nB)
    t = s.t
    yield Le('n_A . n_B <= 1', q, 0 * q + 1)
    yield Le('0 <= (1 - 2t)^2 (1 - n_A . n_B)', 0 * c[0], (1 - 2 * t) * (1 - 2 * t) * (1 - q))
    yield Le('the chord does not pass through the centre', 0 * c[0], sp.dot(c, c), strict=True)


def interp_clauses(m, s, n):
    c = chord(m, s)
    L = sp.norm(m, c)
    t = 0 if m.symbolic else 1e-15 / L + 1e-15
    z = 0 * n[0]
    yield Eq('unit length', sp.dot(n, n), 1 + z, 4e-15)
    for i in range(3):
        yield Eq('proportional to the linear chord interpolation (component %d)' % i, n[i] * L, c[i] + z, 2e-15)
        yield Eq('closed form (component %d)' % i, n[i], c[i] / L + z, t)
    cr = sp.cross(s.nA, s.nB)
    yield Eq('in the plane of the end points', sp.dot(n, cr), z, 3e-15 if m.symbolic else 3e-15 * (1 + 1 / L))


def call(nv, x, cfg):
    return nv.interpolate((x.nA, x.nB), x.t)


def ensures(m, s, n, cfg):
    yield Shape('shape', n, (3, 'N'))
    for c in interp_clauses(m, s, n):
        yield c


def end_call(nv, x, cfg):
    if cfg.get('oo'):
        p = oo_path(nv, x, cfg)
        a, b = p.interpolate(0), p.interpolate(1)
        return a.normal, b.normal, a.z, b.z
    return nv.interpolate((x.nA, x.nB), 0), nv.interpolate((x.nA, x.nB), 1)


def end(m, s, out, cfg):
    yield Eq('parameter 0 gives the first end point', out[0], s.nA, 4e-16)
    yield Eq('parameter 1 gives the second end point', out[1], s.nB, 4e-16)
    if cfg.get('oo'):
        yield Eq('parameter 0 gives the first depth', m.cols(out[2], 0), s.zA, 0)
        yield Eq('parameter 1 gives the second depth', m.cols(out[3], 0) / (1 + m.abs(s.zA) + m.abs(s.zB)),
                 s.zB / (1 + m.abs(s.zA) + m.abs(s.zB)), 4e-16)


# --------------------------------------------------------------------------- GeoPath
def oo_inputs(c):
    shp = ('N',) if c.get('z', 'cols') == 'cols' else ()
    return dict(nA=Unit(), nB=Unit(), t=t_dom(c.get('t', 'scalar') == 'cols'), zA=Real(shp, edges=DEPTHS),
                zB=Real(shp, edges=DEPTHS), a=SemiAxis(), f=Flat(0.5))


def oo_path(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])
    return nv.GeoPath(nv.Nvector(x.nA, x.zA, fr), nv.Nvector(x.nB, x.zB, fr))


def oo_call(nv, x, cfg):
    p = oo_path(nv, x, cfg)
    r = p.interpolate(x.t)
    return r.normal, r.z, r.frame is p.point_a.frame, type(r).__name__


def oo(m, s, out, cfg):
    n, z, same, kind = out
    yield Check('result is an n-vector in the frame of the path', same and kind == 'Nvector', repr((same, kind)))
    yield Shape('shape of the n-vector', n, (3, 'N'))
    for c in interp_clauses(m, s, n):
        yield c
    sc = 1 + m.abs(s.zA) + m.abs(s.zB)
    yield Eq('depth is interpolated linearly', z / sc, (s.zA + (s.zB - s.zA) * s.t) / sc, 1e-15)


P = [('nA', 'nB')]
CF = [dict(N=N, t=t) for N in ('N', 1, 3) for t in ('scalar', 'cols')] + [
    dict(N=N, t='cols', **{k: True}) for N in ('N', 3) for k in ('A1', 'B1')]
OC = [dict(N=N, axes=a, t=t, z=z) for N in ('N', 1, 3) for a, t, z in (('e', 'scalar', 'cols'), ('E', 'cols', 'cols'),
                                                                       ('e', 'scalar', 'scalar'))]
FO = ['objects.GeoPath.interpolate', 'objects.Nvector.__add__', 'objects.Nvector.__sub__', 'objects.Nvector.__mul__']
CONTRACTS = [
    Contract('interpolate', ['core.interpolate', 'util.unit'], inputs, call, ensures, CF, not_antipodal, cuts=cuts, pairs=P,
             keep=keep),
    Contract('end points', ['core.interpolate'], inputs, end_call, end,
             [dict(N=N, t='scalar') for N in ('N', 1, 3)], not_antipodal, pairs=P, keep=keep),
    Contract('GeoPath.interpolate', FO, oo_inputs, oo_call, oo, OC, not_antipodal, cuts=cuts, pairs=P, keep=keep),
    Contract('GeoPath.interpolate end points', FO, oo_inputs, end_call, end,
             [dict(N=N, axes=a, oo=True) for N in ('N', 1, 3) for a in ('e', 'E')], not_antipodal, pairs=P, keep=keep),
]
