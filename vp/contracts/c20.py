"""C20: quantities of different Earth frames are never combined."""
from ..contract import *
from .. import spec as sp

STUBS = ['isclose', 'allclose', 'lat_lon2n_E', 'n_E2lat_lon', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'n_E2R_EN', 'n_E_and_wa2R_EL', 'zyx2R',
         'great_circle_distance', '_Geodesic']


def attempt(fn):
    try:
        return False, fn()
    except ValueError as e:
        if type(e) is not ValueError:
            raise
        return True, None


def frames(nv, x, cfg):
    ax1, ax2 = cfg['axes']
    f1 = nv.FrameE(a=x.a1, f=x.f1, axes=ax1)
    name = {'name': cfg['name']} if cfg.get('name') else {}         # a label only: a and f are both given
    if cfg.get('same'):
        # built separately from the same parameters
        return f1, nv.FrameE(a=x.a1, f=x.f1, axes=ax2, **name)
    return f1, nv.FrameE(a=x.a2, f=x.f2, axes=ax2, **name)


def inputs(c):
    col = 'N' if c.get('N') else 1
    d = dict(a1=SemiAxis(), f1=Flat(0.1))
    if not c.get('same'):
        d.update(a2=SemiAxis(), f2=Flat(0.1))
    k1, k2 = c['kinds']
    pole = {'delta_L': 1, 'frameL': 2, 'greatcircle': 1}.get(c['op'])      # position of the local frame: not at a pole
    for i, k in ((1, k1), (2, k2)):
        if k == 'g':
            sh = ('N',) if c.get('N') else ()
            d['lat%d' % i] = Real(sh, -0.45, 0.45, pi_units=True)
            d['lon%d' % i] = Angle(sh)
            d['z%d' % i] = Real((), -0.01, 0.01)
        elif k == 'n':
            d['n%d' % i] = Unit(col, exclude={'e': 2, 'E': 0}[c['axes'][i - 1]] if pole == i or c['op'] == 'greatcircle' else None)
            d['z%d' % i] = Real(('N',) if c.get('N') else (), -0.01, 0.01)
        elif k == 'p':
            d['p%d' % i] = Vec3(col, edges=())
        else:
            d['p%d' % i] = Unit(col)
    return d


def point(nv, x, i, k, fr):
    if k == 'g':
        return fr.GeoPoint(x['lat%d' % i], x['lon%d' % i], x['z%d' % i])
    if k == 'n':
        return fr.Nvector(x['n%d' % i], x['z%d' % i])
    return fr.ECEFvector(x['p%d' % i] * (fr.a if k == 's' else 1))


def earth(o):
    """the Earth frame a result refers to"""
    return o.frame.nvector.frame if hasattr(o.frame, 'nvector') else o.frame


def ops(nv, op, A, B):
    if op == 'add':
        return A + B
    if op == 'sub':
        return A - B
    if op == 'iadd':
        A += B
        return A
    if op == 'radd':
        return A.__radd__(B)
    if op == 'delta_E':
        return nv.delta_E(A, B)
    if op == 'diff_positions':
        return nv.diff_positions(A, B)
    if op == 'delta_N':
        return nv.delta_N(A, B)
    if op == 'delta_to':
        return A.delta_to(B)
    if op == 'delta_L':
        return nv.delta_L(A, B, 0.5)
    if op == 'frameN':
        return A.change_frame(nv.FrameN(B))
    if op == 'frameL':
        return A.change_frame(nv.FrameL(B, 0.25))
    if op == 'frameB':
        return A.change_frame(nv.FrameB(B, 0.1, 0.2, 0.3))
    if op == 'ellipsoid':
        return A.distance_and_azimuth(B)
    if op == 'ellipsoid_deg':
        return A.distance_and_azimuth(B, long_unroll=True, degrees=True)
    if op == 'greatcircle':
        return A.distance_and_azimuth(B, method='greatcircle')
    raise KeyError(op)


def call(nv, x, cfg):
    f1, f2 = frames(nv, x, cfg)
    A, B = point(nv, x, 1, cfg['kinds'][0], f1), point(nv, x, 2, cfg['kinds'][1], f2)
    raised, r = attempt(lambda: ops(nv, cfg['op'], A, B))
    ok = True
    if not raised and hasattr(r, 'frame'):
        e = earth(r)
        ok = e is f1 or e is f2
    return raised, ok


def agree(m, a, b):
    """|a - b| <= max(1e-14, 1e-12 max(|a|, |b|))"""
    return m.abs(a - b) <= m.maximum(m.c(1e-14), 1e-12 * m.maximum(m.abs(a), m.abs(b)))


def requires(m, s, cfg):
    out = []
    if cfg['op'] == 'greatcircle':
        for i, k in ((1, cfg['kinds'][0]), (2, cfg['kinds'][1])):
            ax = cfg['axes'][i - 1]
            if k == 'g':
                n = [m.cols(v, 0) for v in sp.lat_lon2n(m, ax, s['lat%d' % i], s['lon%d' % i])]
            elif k == 'n':
                n = [s['n%d' % i][j] for j in range(3)]
            else:
                continue
            j = 1 if cfg.get('same') else i
            out += sp.invertible(m, ax, n, m.cols(s['z%d' % i], 0), s['a%d' % j], s['f%d' % j])
    return out


def near(m, a, b):
    d, t = m.abs(a - b), m.maximum(m.c(1e-14), 1e-12 * m.maximum(m.abs(a), m.abs(b)))
    return m.and_(d > 0.9 * t, d < 1.1 * t)


def ensures(m, s, out, cfg):
    raised, ok = out
    ax1, ax2 = cfg['axes']
    if ax1 != ax2:
        equal, nr = m.c(False) if m.symbolic else np.array(False), None
    elif cfg.get('same'):
        equal, nr = m.c(True) if m.symbolic else np.array(True), None
    else:
        equal = m.and_(agree(m, s.a1, s.a2), agree(m, s.f1, s.f2))
        nr = None if m.symbolic else m.or_(near(m, s.a1, s.a2), near(m, s.f1, s.f2))
    yield Iff('ValueError exactly if the Earth frames differ', m.arr(raised) if m.symbolic else raised, m.not_(equal), nr)
    yield Check('the result carries the common frame', ok, 'frame of the result')


def draw(c, rng, n):
    c = dict(c)
    con = Contract('x', [], inputs, None, None, [])
    v = edge_values(con, c, rng, n)
    if c.get('same'):
        return v
    k = rng.random()
    if k < 0.75:
        v['a2'], v['f2'] = np.array(v['a1']), np.array(v['f1'])
        if k < 0.25:
            v['a2'] = v['a1'] * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-14.5, -3))
        elif k < 0.5:
            v['f2'] = np.abs(v['f1'] + rng.choice([-1, 1]) * 10 ** rng.uniform(-16, -3))
    if rng.random() < 0.3:
        v['a1'] = np.array(6378137.0)
        v['a2'] = np.array(rng.choice([6378137.0, 6378137.001, 6378136.0, 6378206.4]))
    if rng.random() < 0.2:
        v['f1'] = np.array(1 / 298.257223563)
        v['f2'] = np.array(rng.choice([1 / 298.257223563, 1 / 298.257222101, 0.0]))
    return v


OPS = [('add', 'nn'), ('add', 'pp'), ('sub', 'nn'), ('sub', 'pp'), ('iadd', 'pp'), ('iadd', 'nn'), ('radd', 'nn'),
       ('delta_E', 'nn'), ('delta_E', 'gn'), ('delta_E', 'np'), ('delta_E', 'pg'), ('delta_E', 'gg'), ('delta_E', 'pp'),
       ('diff_positions', 'pp'),
       ('delta_N', 'nn'), ('delta_N', 'gp'), ('delta_to', 'ng'), ('delta_to', 'gg'), ('delta_L', 'nn'), ('delta_L', 'gp'),
       ('frameN', 'pn'), ('frameN', 'pg'), ('frameL', 'pn'), ('frameB', 'pn'), ('ellipsoid', 'gg'), ('ellipsoid', 'gn'),
       ('ellipsoid_deg', 'gg'), ('greatcircle', 'gg'), ('greatcircle', 'gn')]
# positions given as ECEF vectors that have to be converted: bounded companion only
OPSP = [('delta_N', 'ss'), ('delta_N', 'sg'), ('delta_L', 'sn'), ('frameN', 'ss'), ('frameB', 'ss'), ('greatcircle', 'gs'),
        ('ellipsoid', 'gs'), ('delta_to', 'ss')]
AXP = [('e', 'e'), ('E', 'E'), ('e', 'E'), ('E', 'e')]


def cfgs(opl):
    out = []
    for i, (op, kinds) in enumerate(opl):
        out.append(dict(N=None, op=op, kinds=kinds, axes=AXP[i % 2]))
        out.append(dict(N=None, op=op, kinds=kinds, axes=AXP[2 + i % 2]))
        out.append(dict(N='N', op=op, kinds=kinds, axes=AXP[(i + 1) % 2]))
        out.append(dict(N=None, op=op, kinds=kinds, axes=AXP[i % 2], same=True))
        out.append(dict(N='N', op=op, kinds=kinds, axes=AXP[(i + 1) % 2], same=True))
        # the name of a frame is a label
        out.append(dict(N=None, op=op, kinds=kinds, axes=AXP[i % 2], same=True, name='wgs72'))
        out.append(dict(N=None, op=op, kinds=kinds, axes=AXP[(i + 1) % 2], name='local'))
    return out


FUN = ['objects._check_frames', 'objects.FrameE._is_equal_to', 'objects._Common.__eq__', 'util.allclose', 'util.isclose',
       'objects.Nvector.__add__', 'objects.Nvector.__sub__', 'objects.ECEFvector.__add__', 'objects.ECEFvector.__sub__',
       'objects.ECEFvector.change_frame', 'objects.delta_E', 'objects.delta_N', 'objects.delta_L',
       'objects.GeoPoint.distance_and_azimuth']
CONTRACTS = [
    Contract('mixing', FUN, inputs, call, ensures, cfgs(OPS), stubs=STUBS, draw=draw, requires=requires),
    Contract('mixing of ECEF positions', FUN, inputs, call, ensures, cfgs(OPSP), draw=draw, requires=requires, num_only=True),
]
