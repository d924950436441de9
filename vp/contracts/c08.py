"""C08: direct problem on the sphere and azimuth."""
from ..contract import *
from .. import spec as sp
from .c02 import rot, AX

TURNS = [0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, 2 * math.pi, 1e-9, -1e-9, 1e-6, 0.75, -2.5, 3.1, 12.3]


def ang(cols):
    return Real(('N',) if cols else (), None, None, glo=-7.0, ghi=7.0, edges=TURNS)


def inputs(c):
    k = c.get('k', 'da')
    return dict(n=Unit(1 if c.get('A1') else 'N'), d=ang('d' in k), az=ang('a' in k))


def call(nv, x, cfg):
    return nv.n_EA_E_distance_and_azimuth2n_EB_E(x.n, x.d, x.az, rot(nv, cfg))


def ensures(m, s, nB, cfg):
    yield Shape('shape of n_EB_E', nB, (3, 'N'))
    R = sp.R_EN(m, cfg['axes'], s.n)
    north, east = [R[i][0] for i in range(3)], [R[i][1] for i in range(3)]
    z = 0 * nB[0]
    yield Eq('unit length', sp.dot(nB, nB), 1 + z, 4e-15)
    yield Eq('at exactly the given angle: n_A . n_B = cos(distance)', sp.dot(s.n, nB), m.cos(s.d) + z, 2e-15)
    yield Eq('northward part', sp.dot(north, nB), m.sin(s.d) * m.cos(s.az) + z, 2e-15)
    yield Eq('eastward part', sp.dot(east, nB), m.sin(s.d) * m.sin(s.az) + z, 2e-15)
    for i in range(3):
        yield Eq('closed form, component %d' % i, nB[i], s.n[i] * m.cos(s.d) + (
            north[i] * m.cos(s.az) + east[i] * m.sin(s.az)) * m.sin(s.d), 2e-15)


# ------------------------------------------------------------------------------- azimuth
def az_inputs(c):
    return dict(nA=Unit(1 if c.get('A1') else 'N'), nB=Unit(1 if c.get('B1') else 'N'), a=SemiAxis(), f=Flat(0.5))


def az_call(nv, x, cfg):
    return nv.n_EA_E_and_n_EB_E2azimuth(x.nA, x.nB, x.a, x.f, rot(nv, cfg))


def horizontal(m, s, cfg, nA, nB, a, f):
    pA, pB = sp.n2p(m, cfg['axes'], nA, 0, a, f), sp.n2p(m, cfg['axes'], nB, 0, a, f)
    p = [(pB[i] - pA[i]) / (1 if m.symbolic else a) for i in range(3)]
    R = sp.R_EN(m, cfg['axes'], nA)
    return [sum(R[i][j] * p[i] for i in range(3)) for j in range(3)]


def az(m, s, w, cfg):
    yield Shape('shape of azimuth', w, ('N',))
    x, y, _ = horizontal(m, s, cfg, s.nA, s.nB, s.a, s.f)
    h = m.sqrt(x * x + y * y)
    z = 0 * w
    t = 3e-14 if m.symbolic else 2e-15 / (1 - s.f) ** 3
    yield Le('azimuth >= -pi', -m.pi + z, w, 1e-15)
    yield Le('azimuth <= pi', w, m.pi + z, 1e-15)
    if m.symbolic:
        yield Eq('angle of the delta vector from north towards east', w, m.atan2(y, x))
    else:
        # coincident (or antipodal) positions have no azimuth
        yield Eq('sine of the azimuth: east part over horizontal length', m.sin(w) * h, y + z, t)
        yield Eq('cosine of the azimuth: north part over horizontal length', m.cos(w) * h, x + z, t)


def trip_inputs(c):
    return dict(n=Unit(), d=Real(('N',), 0, 1, pi_units=True, open_lo=True, open_hi=True,
                                 edges=[1e-6, 0.5, 3.0, math.pi / 2, 1e-3]),
                az=Real(('N',), -1, 1, pi_units=True, open_lo=True, edges=TURNS), a=SemiAxis())


def trip_call(nv, x, cfg):
    nB = nv.n_EA_E_distance_and_azimuth2n_EB_E(x.n, x.d, x.az, rot(nv, cfg))
    return nv.n_EA_E_and_n_EB_E2azimuth(x.n, nB, x.a, 0, rot(nv, cfg)), nv.great_circle_distance(x.n, nB, 1)


def trip(m, s, out, cfg):
    w, d = out
    z = 0 * w
    t = 0 if m.symbolic else 3e-15
    if m.symbolic:
        yield Eq('azimuth of the direct problem is recovered on a sphere', w, s.az)
    else:
        yield Eq('azimuth of the direct problem is recovered on a sphere (sine)', m.sin(w) * m.sin(s.d),
                 m.sin(s.az) * m.sin(s.d), t)
        yield Eq('azimuth of the direct problem is recovered on a sphere (cosine)', m.cos(w) * m.sin(s.d),
                 m.cos(s.az) * m.sin(s.d), t)
    yield Eq('distance of the direct problem is recovered', d, s.d, t)


def dcall(nv, x, cfg):
    R = nv.E_rotation('e')
    return (nv.n_EA_E_distance_and_azimuth2n_EB_E(x.n, x.d, x.az),
            nv.n_EA_E_distance_and_azimuth2n_EB_E(x.n, x.d, x.az, R_Ee=R),
            nv.n_EA_E_and_n_EB_E2azimuth(x.n, x.nB),
            nv.n_EA_E_and_n_EB_E2azimuth(x.n, x.nB, 6378137, 1.0 / 298.257223563, R))


def densures(m, s, out, cfg):
    yield Eq('default axes are e (direct problem)', out[0], out[1], 0)
    yield Eq('defaults are WGS84 and axes e (azimuth)', out[2], out[3], 0)


N3 = ('N', 1, 3)
DIR, AZI = 'core.n_EA_E_distance_and_azimuth2n_EB_E', 'core.n_EA_E_and_n_EB_E2azimuth'
CF = [dict(N=N, axes=a) for a in AX for N in N3]
CONTRACTS = [
    Contract('direct problem', [DIR, 'util.unit'], inputs, call, ensures,
             CF + [dict(N=N, axes=a, k=k) for N in N3 for a, k in (('e', ''), ('E', 'd'), ('e', 'a'))] +
             [dict(N=N, axes=a, A1=True, k=k) for N in ('N', 3) for a, k in (('e', 'da'), ('E', 'd'), ('e', 'a'))]),
    Contract('azimuth', [AZI, 'core.n_EA_E_and_n_EB_E2p_AB_E', 'util.mdot'], az_inputs, az_call, az,
             CF + [dict(N=N, axes=a, **{k: True}) for N in ('N', 3) for a, k in (('e', 'A1'), ('E', 'B1'))],
             stubs=['n_EB_E2p_EB_E', 'n_E2R_EN'], pairs=[('nA', 'nB')]),
    Contract('azimuth inverts the direct problem on a sphere', [AZI, DIR], trip_inputs, trip_call, trip, CF,
             stubs=['n_EB_E2p_EB_E', 'n_E2R_EN', 'great_circle_distance']),
    Contract('defaults', [DIR, AZI], lambda c: dict(n=Unit(), nB=Unit(), d=ang(True), az=ang(True)), dcall, densures,
             [dict(N='N')], stubs=['n_EB_E2p_EB_E', 'n_E2R_EN']),
]
