"""C01: latitude/longitude <-> n-vector."""
from ..contract import *
from .. import spec as sp

AX = ('e', 'E')
CF = [dict(N=N, axes=ax) for ax in AX for N in ('N', 1, 3)]


def rot(nv, cfg):
    return nv.E_rotation(cfg['axes']) if cfg['axes'] else None


def fwd_call(nv, x, cfg):
    return nv.lat_lon2n_E(x.lat, x.lon, rot(nv, cfg))


def fwd(m, s, n, cfg):
    e = sp.to_e(cfg['axes'], n)
    yield Shape('shape of n_E', n, (3, 'N'))
    yield Eq('unit length', sp.dot(e, e), 1 + 0 * e[0], 4e-15)
    yield Eq('axial component is sin(latitude)', e[0], m.sin(s.lat), 3e-16)
    yield Eq('equatorial direction: cos(lat) sin(lon)', e[1], m.cos(s.lat) * m.sin(s.lon), 4e-16)
    yield Eq('equatorial direction: cos(lat) cos(lon)', -e[2], m.cos(s.lat) * m.cos(s.lon), 4e-16)


def fwd_scalar_call(nv, x, cfg):
    return nv.lat_lon2n_E(x.lat, x.lon, rot(nv, cfg))


def fwd_scalar(m, s, n, cfg):
    e = sp.to_e(cfg['axes'], n)
    yield Shape('shape of n_E', n, (3, 1))
    yield Eq('axial component is sin(latitude)', e[0], m.sin(s.lat), 3e-16)
    yield Eq('equatorial: cos(lat) sin(lon)', e[1], m.cos(s.lat) * m.sin(s.lon), 4e-16)
    yield Eq('equatorial: cos(lat) cos(lon)', -e[2], m.cos(s.lat) * m.cos(s.lon), 4e-16)


def inv_call(nv, x, cfg):
    return nv.n_E2lat_lon(x.n, rot(nv, cfg))


def inv(m, s, out, cfg):
    lat, lon = out
    e = sp.to_e(cfg['axes'], s.n)
    h = m.sqrt(e[1] * e[1] + e[2] * e[2])
    yield Shape('shape of latitude', lat, ('N',))
    yield Shape('shape of longitude', lon, ('N',))
    yield Le('latitude >= -pi/2', -m.pi / 2 + 0 * e[0], lat, 1e-15)
    yield Le('latitude <= pi/2', lat, m.pi / 2 + 0 * e[0], 1e-15)
    yield Le('longitude >= -pi', -m.pi + 0 * e[0], lon, 1e-15)
    yield Le('longitude <= pi', lon, m.pi + 0 * e[0], 1e-15)
    yield Eq('sin(latitude) is the axial component', m.sin(lat), e[0], 3e-15)
    yield Eq('cos(latitude) is the equatorial length', m.cos(lat), h, 3e-15)
    yield Eq('longitude direction (sin)', h * m.sin(lon), e[1], 3e-15)
    yield Eq('longitude direction (cos)', h * m.cos(lon), -e[2], 3e-15)


def trip_call(nv, x, cfg):
    lat, lon = nv.n_E2lat_lon(x.n, rot(nv, cfg))
    return nv.lat_lon2n_E(lat, lon, rot(nv, cfg))


def trip(m, s, n, cfg):
    yield Shape('shape', n, (3, 'N'))
    yield Eq('n_E -> lat, lon -> n_E is the identity', n, s.n, 3e-15)


def trip2_call(nv, x, cfg):
    return nv.n_E2lat_lon(nv.lat_lon2n_E(x.lat, x.lon, rot(nv, cfg)), rot(nv, cfg))


def trip2(m, s, out, cfg):
    lat, lon = out
    tol = 4e-16 / m.cos(s.lat) + 1e-15 if not m.symbolic else 0
    yield Eq('lat, lon -> n_E -> latitude is the identity', lat, s.lat, 2e-8 if m.symbolic else 3e-15 + tol)
    yield Eq('lat, lon -> n_E -> longitude is the identity', lon, s.lon, tol)


CONTRACTS = [
    Contract('lat_lon2n_E', ['core.lat_lon2n_E'], lambda c: dict(lat=AnyAngle(), lon=AnyAngle()), fwd_call, fwd, CF),
    Contract('lat_lon2n_E scalar', ['core.lat_lon2n_E'], lambda c: dict(lat=AnyAngle(()), lon=AnyAngle(())),
             fwd_scalar_call, fwd_scalar, [dict(axes=a) for a in AX] + [dict(axes=None)]),
    Contract('n_E2lat_lon', ['rotation.n_E2lat_lon'], lambda c: dict(n=Unit()), inv_call, inv, CF),
    Contract('n_E2lat_lon default axes', ['rotation.n_E2lat_lon', 'core.lat_lon2n_E'], lambda c: dict(n=Unit()),
             inv_call, inv, [dict(N=N, axes=None) for N in ('N', 1)]),
    Contract('lat_lon2n_E(n_E2lat_lon(n))', ['core.lat_lon2n_E', 'rotation.n_E2lat_lon'], lambda c: dict(n=Unit()),
             trip_call, trip, CF),
    Contract('n_E2lat_lon(lat_lon2n_E(lat,lon))', ['core.lat_lon2n_E', 'rotation.n_E2lat_lon'],
             lambda c: dict(lat=Real(('N',), -0.5, 0.5, pi_units=True, open_lo=True, open_hi=True,
                                     edges=[0.0, 1e-9, -1e-9, 1.5, -1.5, 1.57, 0.7853981633974483]),
                            lon=Real(('N',), -1, 1, pi_units=True, open_lo=True,
                                     edges=[0.0, 1e-9, -1e-9, 3.14159, -3.14159, 1.5707963267948966,
                                            -1.5707963267948966, 2.5, -2.5])), trip2_call, trip2, CF),
]
