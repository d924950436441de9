"""C17: deltas in local frames."""
from ..contract import *
from .. import spec as sp
from .c01 import rot
from .c02 import DEPTHS

AX = ('e', 'E')


def inputs(c):
    d = dict(nA=Unit(1 if c.get('A1') else 'N', exclude=c.get('exclude')), nB=Unit(1 if c.get('B1') else 'N'))
    for k, one in (('zA', c.get('A1')), ('zB', c.get('B1'))):
        d[k] = Real(('N',) if c['z'] == 'cols' and not one else (), edges=DEPTHS)
    d.update(a=SemiAxis(), f=Flat(0.5))
    k = c.get('frame', 'N')
    if k == 'L':
        d['wa'] = AnyAngle(('N',) if c.get('ang') == 'cols' else ())
    if k == 'B':
        for q in ('yaw', 'pitch', 'roll'):
            d[q] = AnyAngle(('N',) if c.get('ang') == 'cols' else ())
    return d


def points(nv, x, cfg):
    fr = nv.FrameE(a=x.a, f=x.f, axes=cfg['axes'])
    return nv.Nvector(x.nA, x.zA, fr), nv.Nvector(x.nB, x.zB, fr), fr


def ecef(nv, x, cfg):
    R = rot(nv, cfg)
    return [nv.n_EB_E2p_EB_E(x[n], x[z], x.a, x.f, R) for n, z in (('nA', 'zA'), ('nB', 'zB'))]


# ------------------------------------------------------------------------------------------------------ delta_E
def e_call(nv, x, cfg):
    a, b, fr = points(nv, x, cfg)
    d = nv.delta_E(a, b)
    pa, pb = ecef(nv, x, cfg)
    d2 = nv.delta_E(a.to_ecef_vector(), b)
    d3 = nv.delta_E(a, b.to_ecef_vector())
    return d.pvector, d2.pvector, d3.pvector, pa, pb, type(d).__name__ == 'ECEFvector' and d.frame is fr, d.length


def delta_e(m, s, out, cfg):
    d, d2, d3, pa, pb, ok, length = out
    yield Check('result is an ECEF vector of the frame of the points', ok, 'type or frame')
    yield Shape('shape', d, (3, 'N'))
    sc = s.a + m.abs(s.zA) + m.abs(s.zB)
    for q in (d, d2, d3):
        for i in range(3):
            yield Eq('difference of the positions (component %d)' % i, q[i] / sc, (pb[i] - pa[i]) / sc, 1e-15)
    v = [pb[i] - pa[i] for i in range(3)]
    yield Eq('length is the Euclidean distance', m.cols(length, 0) / sc, sp.norm(m, v) / sc, 2e-15)


# -------------------------------------------------------------------------------------------------- local frames
def local_call(nv, x, cfg):
    a, b, fr = points(nv, x, cfg)
    k = cfg.get('frame', 'N')
    R_Ee = rot(nv, cfg)
    R = nv.n_E2R_EN(x.nA, R_Ee)
    if k == 'N':
        d = nv.delta_N(a, b)
        lf = d.frame
        more = [a.delta_to(b), nv.delta_E(a, b).change_frame(nv.FrameN(a))]
        kind = type(lf).__name__ == 'FrameN'
    elif k == 'L':
        d = nv.delta_L(a, b, x.wa)
        lf = d.frame
        R = nv.n_E_and_wa2R_EL(x.nA, x.wa, R_Ee)
        more = [nv.delta_E(a, b).change_frame(nv.FrameL(a, x.wa))]
        kind = type(lf).__name__ == 'FrameL'
    else:
        lf = nv.FrameB(a, x.yaw, x.pitch, x.roll)
        d = nv.delta_E(a, b).change_frame(lf)
        R = nv.mdot(R, nv.zyx2R(x.yaw, x.pitch, x.roll))
        more = []
        kind = d.frame is lf
    ok = kind and type(d).__name__ == 'Pvector' and lf.nvector.frame is fr
    back = d.to_ecef_vector()
    ok = ok and type(back).__name__ == 'ECEFvector' and back.frame is fr
    pa, pb = ecef(nv, x, cfg)
    return ok, d.pvector, [q.pvector for q in more], R, lf.R_EN, back.pvector, pa, pb, (d.length, d.azimuth, d.elevation)


def entries(m, R):
    """3 x 3 matrix or one matrix per column -> entries with the column axis last"""
    R = m.cols(R, 2)
    return [[R[i, j] for j in range(3)] for i in range(3)]


def local(m, s, out, cfg):
    ok, d, more, R, R2, back, pa, pb, _ = out
    yield Check('type and frame of the results', ok, 'type or frame')
    yield Shape('shape', d, (3, 'N'))
    yield Shape('shape of the ECEF delta', back, (3, 'N'))
    sc = s.a + m.abs(s.zA) + m.abs(s.zB)
    v = [(pb[i] - pa[i]) / sc for i in range(3)]
    M, M2 = entries(m, R), entries(m, R2)
    want = sp.apply_T(M, v)
    for i in range(3):
        for q in [d] + more:
            yield Eq('transposed rotation matrix times the ECEF delta (component %d)' % i, q[i] / sc, want[i], 3e-15)
        for j in range(3):
            yield Eq('rotation matrix of the frame (%d, %d)' % (i, j), M2[i][j], M[i][j], 1e-15)
        yield Eq('back to the ECEF delta (component %d)' % i, back[i] / sc, v[i], 5e-15)


def delta_cuts(m, s, cfg):
    R = cfg['axes']
    pa, pb = [sp.n2p_unit(m, R, [n[i] for i in range(3)], m.cols(z, 0), s.a, s.f) for n, z in ((s.nA, s.zA), (s.nB, s.zB))]
    for i in range(3):
        yield Cut('v%d' % i, pb[i] - pa[i])


def polar(m, s, out, cfg):
    d, (length, azi, elev) = out[1], out[-1]
    sc = 1 if m.symbolic else s.a + m.abs(s.zA) + m.abs(s.zB)
    length, azi, elev = [m.cols(q, 0) for q in (length, azi, elev)]
    pa, pb = out[6], out[7]
    v = [(pb[i] - pa[i]) / sc for i in range(3)]
    L = sp.norm(m, v)
    for q, w in ((length, 'length'), (azi, 'azimuth'), (elev, 'elevation')):
        yield Shape('shape of the ' + w, q, ('N',))
    yield Eq('length is that of the ECEF delta', length / sc, L, 5e-15)


def vec_inputs(c):
    d = dict(p=Vec3('N', edges=((1, 0, 0), (0, 2, 0), (0, 0, -3), (0, 0, 3), (-1, 0, 0), (1e-9, 0, 1), (0, -2, 0), (-3, -4, 0))))
    if not c.get('cls') == 'ECEFvector':
        d['n'] = Unit(1)
    return d


def vec_call(nv, x, cfg):
    if cfg['cls'] == 'ECEFvector':
        q = nv.ECEFvector(x.p)
    else:
        q = nv.FrameN(nv.Nvector(x.n)).Pvector(x.p)
    return q.length, q.azimuth, q.elevation, q.azimuth_deg, q.elevation_deg


def vec_requires(m, s, cfg):
    return [sp.dot(s.p, s.p) > 0]


def vec(m, s, out, cfg):
    n, azi, elev, da, de = [m.cols(q, 0) for q in out]
    x, y, z = [s.p[i] for i in range(3)]
    L = sp.norm(m, [x, y, z])
    yield Shape('shape of the length', n, ('N',))
    yield Eq('length', n, L, 0 if m.symbolic else 1e-15 * L)
    yield Eq('azimuth is the angle from the x axis towards the y axis', azi, m.atan2(y, x), 1e-15)
    yield Eq('azimuth in degrees', da, azi * 180 / m.pi, 1e-13)
    yield Eq('elevation in degrees', de, elev * 180 / m.pi, 1e-13)
    # near +-pi/2 the arcsine loses half of the digits: compare the sine
    yield Eq('sine of the elevation is the z part over the length', m.sin(elev), z / L, 2e-15)
    yield Le('elevation <= pi/2', elev, m.pi / 2 + 0 * x, 1e-15)
    yield Le('elevation >= -pi/2', -m.pi / 2 + 0 * x, elev, 1e-15)


def deg_call(nv, x, cfg):
    fr = nv.FrameE(axes=cfg['axes'])
    p = nv.Nvector(x.n, x.z, fr)
    b = nv.FrameB(p, x.yaw, x.pitch, x.roll, degrees=True)
    c = nv.FrameB(p)
    n, l = nv.FrameN(p), nv.FrameL(p)
    return (b.yaw, b.pitch, b.roll), (c.yaw, c.pitch, c.roll), b.nvector is p, (b.nvector.normal, n.nvector.normal, l.nvector.normal), \
        (n.nvector.z, l.nvector.z), l.wander_azimuth, n.nvector.frame is fr and l.nvector.frame is fr


def degs(m, s, out, cfg):
    ang, ang0, same, ns, zs, wa, frok = out
    yield Check('a body frame sits at its position', same, 'position of the frame')
    yield Check('local frames keep the Earth frame', frok, 'frame')
    for w, got, want in zip(('yaw', 'pitch', 'roll'), ang, (s.yaw, s.pitch, s.roll)):
        yield Eq(w + ' in degrees', m.cols(got, 0), m.cols(want, 0) * m.pi / 180,
                 0 if m.symbolic else 4e-16 * (1 + m.abs(m.cols(want, 0)) / 57))
    for v in ang0 + (wa,):
        yield Eq('default angles are zero', m.c(v), m.c(0), 0)
    for n in ns:
        yield Eq('local frames sit at the n-vector of the position', n, s.n, 0)
    for z in zs:
        yield Eq('north and wander frames are those of the surface point', m.c(z), m.c(0), 0)


def deg_inputs(c):
    d = dict(n=Unit(), z=Real(('N',), edges=DEPTHS))
    for k in ('yaw', 'pitch', 'roll'):
        d[k] = Real(('N',) if c['ang'] == 'cols' else (), glo=-400.0, ghi=400.0, edges=[0.0, 90.0, -180.0, 360.0, 10.0])
    return d


ST = ['n_EB_E2p_EB_E', 'n_E2R_EN', 'n_E_and_wa2R_EL', 'zyx2R']
P = [('nA', 'nB')]
FL = ['objects.Pvector.to_ecef_vector', 'objects.ECEFvector.change_frame', 'objects.FrameN.R_EN', 'objects.FrameN.__init__',
      'objects.delta_E', 'objects.ECEFvector.__sub__']
N3 = ('N', 1, 3)
CE = [dict(N=N, axes=a, z=z) for N in N3 for a, z in (('e', 'cols'), ('E', 's'))]
CONTRACTS = [
    Contract('delta_E', ['objects.delta_E', 'objects.ECEFvector.__sub__', 'objects.Nvector.to_ecef_vector',
                         'objects.Pvector.length'], inputs, e_call, delta_e,
             CE + [dict(N=N, axes='e', z='cols', A1=1) for N in ('N', 3)] + [dict(N='N', axes='E', z='s', B1=1)],
             pairs=P, stubs=ST),
    Contract('delta_N', FL + ['objects.delta_N', 'objects._delta'], inputs, local_call, local,
             CE + [dict(N=N, axes='e', z='cols', A1=1) for N in ('N', 3)] + [dict(N='N', axes='E', z='s', B1=1)],
             pairs=P, stubs=ST),
    Contract('delta_L', FL + ['objects.delta_L', 'objects.FrameL.__init__', 'objects.FrameL.R_EN'], inputs, local_call, local,
             [dict(N=N, axes=a, z='cols', frame='L', ang=g, exclude=2 if a == 'e' else 0) for N in N3
              for a, g in (('e', 'cols'), ('E', 's'))], pairs=P, stubs=ST),
    Contract('change_frame to a body frame', FL + ['objects.FrameB.__init__', 'objects.FrameB.R_EN', 'util.mdot'], inputs,
             local_call, local, [dict(N=N, axes=a, z='cols', frame='B', ang=g) for N in N3
                                 for a, g in (('e', 'cols'), ('E', 's'))], pairs=P, stubs=ST),
    Contract('length, azimuth and elevation', ['objects.Pvector.length', 'objects.Pvector.azimuth',
                                               'objects.Pvector.elevation', 'objects.Pvector.azimuth_deg',
                                               'objects.Pvector.elevation_deg', 'objects._LocalFrame.Pvector'],
             vec_inputs, vec_call, vec, [dict(N=N, cls=c) for N in N3 for c in ('Pvector', 'ECEFvector')], vec_requires),
    Contract('length of a delta', FL, inputs, local_call, polar, [dict(N=N, axes='e', z='cols') for N in N3], pairs=P,
             stubs=ST, cuts=delta_cuts),
    Contract('frames', ['objects.FrameN.__init__', 'objects.FrameL.__init__', 'objects.FrameB.__init__'], deg_inputs,
             deg_call, degs, [dict(N=N, axes=a, ang=g) for N in N3 for a, g in (('e', 'cols'), ('E', 's'))]),
]
