"""C22: ellipsoid registry and frames."""
import random
import re
from ..contract import *
from .. import spec as sp
from ..sym import Unsupported

EXPLANATION = 'registry: one obligation per ellipsoid and per name; a name is an abstract string that stands for every ' \
    'spelling (any letter case, any blanks) and is known only through lower() and replace(" ", "")'

# number: (semi-axis, inverse flattening, names)
TABLE = {
    1: (6377563.396, 299.3249646, ['Airy 1858']),
    2: (6377340.189, 299.3249646, ['Airy Modified']),
    3: (6378160, 298.25, ['Australian National']),
    4: (6377397.155, 299.1528128, ['Bessel', 'Bessel 1841']),
    5: (6378249.145, 293.465, ['Clarke 1880']),
    6: (6377276.345, 300.8017, ['Everest 1830']),
    7: (6377304.063, 300.8017, ['Everest Modified']),
    8: (6378166.0, 298.3, ['Fisher 1960']),
    9: (6378150.0, 298.3, ['Fisher 1968']),
    10: (6378270.0, 297, ['Hough 1956', 'Hough']),
    11: (6378388.0, 297, ['International', 'Hayford', 'ED50']),
    12: (6378245.0, 298.3, ['Krassovsky', 'Krassovsky 1938']),
    13: (6378145., 298.25, ['NWL-9D', 'WGS 66']),
    14: (6378160.0, 298.25, ['South American 1969', 'SAD69']),
    15: (6378136, 298.257, ['Soviet Geod. System 1985']),
    16: (6378135., 298.26, ['WGS 72']),
    17: (6378206.4, 294.9786982138, ['Clarke 1866', 'NAD27']),
    18: (6378137.0, 298.257223563, ['GRS80', 'WGS84', 'NAD83']),
    19: (6378137, 298.257222101, ['ETRS89']),
}


class Spelling(str):
    """Every way of writing a name: known only up to case and blanks (the content is one example)"""
    def __new__(cls, canon, lowered=False, blankless=False):
        if lowered and blankless:
            s = str.__new__(cls, canon)
        else:
            t = canon if blankless else ' '.join(canon) + ' '
            s = str.__new__(cls, t if lowered else t.swapcase() if len(canon) % 2 else t.title())
        s.canon, s.lowered, s.blankless = canon, lowered, blankless
        return s

    def lower(self):
        return Spelling(self.canon, True, self.blankless)
    casefold = lower

    def replace(self, old, new, *a):
        if old == ' ' and new == '' and not a:
            return Spelling(self.canon, self.lowered, True)
        raise Unsupported('replace(%r, %r)' % (old, new))

    def __hash__(self):
        # looked up: known only if both case and blanks have been removed
        if not (self.lowered and self.blankless):
            raise KeyError('a name in some spelling')
        return str.__hash__(self)

    def __eq__(self, o):
        if not (self.lowered and self.blankless):
            raise Unsupported('comparison of a name in some spelling')
        return str.__eq__(self, o)

    def __ne__(self, o):
        return not self == o


def _no(name):
    def f(self, *a, **k):
        raise Unsupported('str.%s of a name in some spelling' % name)
    return f


for _n in dir(str):
    if not _n.startswith('_') and _n not in ('lower', 'casefold', 'replace'):
        setattr(Spelling, _n, _no(_n))


def canon(name):
    return name.lower().replace(' ', '')


def same(e, k):
    a, inv, _ = TABLE[k]
    return abs(e.a - a) <= 1e-13 * a and abs(e.f * inv - 1) < 1e-13 and 0 < e.f < 0.004


def spelled(rng, name):
    out = ''
    for c in name.replace(' ', ''):
        out += ' ' * rng.choice([0, 0, 0, 1, 2]) + (c.upper() if rng.random() < 0.5 else c.lower())
    return out + ' ' * rng.choice([0, 1])


def near_misses(nv, rng):
    """Names one step away from a registered one, none of them registered (blanks and case do not count); words are combined
    with the text constants of the function itself"""
    import types
    known = {canon(n) for _, _, names in TABLE.values() for n in names}
    words = {w for n in known for w in re.findall('[a-z]+|[0-9]+', n)}
    consts = set()

    def collect(code):
        for c in code.co_consts:
            if isinstance(c, str) and len(c) < 40:
                consts.add(canon(c))
            elif isinstance(c, types.CodeType):
                collect(c)
    fn = getattr(nv.get_ellipsoid, '__wrapped__', nv.get_ellipsoid)
    if hasattr(fn, '__code__'):
        collect(fn.__code__)
    out = set()
    for n in known | consts:
        for i in range(len(n) + 1):
            out.add(n[:i])
            out.add(n[i:])
            out.update(n[:i] + c + n[i:] for c in '-_/.,aes019')
            if i < len(n):
                out.add(n[:i] + n[i + 1:])
                out.update(n[:i] + c + n[i + 1:] for c in 'aex0189-')
        out.update(n.replace(c, '') for c in '-.')
        out.update(re.sub('[0-9]{2}$', lambda g: y + g.group(), n) for y in ('18', '19', '20'))
        out.update((n[::-1], n + n, n.replace('19', ''), n.replace('18', '')))
        for w in known | consts | words | {'ellipsoid', 'datum', 'the', 'el', 'ellps', 'epsg:', 'geodetic', 'system', '#', '1', '18'}:
            out.update((n + w, w + n, n + '-' + w, n + '_' + w, w + '_' + n))
    for c in consts:
        for n in known:
            for w in words:
                if w in n:
                    out.add(n.replace(w, c))
    out.update(str(i) for i in range(-1, 25))
    return sorted(n for n in out if canon(n) not in known)


def extra(nv, tier, seed):
    out = []

    def add(name, fn, *replay):
        try:
            ok, why = fn()
        except Unsupported:
            return            # outside of the abstract string domain: the sampled spellings below decide
        except Exception as e:
            ok, why = False, '%s: %s' % (type(e).__name__, e)
        if ok and name.startswith('registry: spelling'):
            return            # a sample, not counted
        o = dict(name=name, status='proved' if ok else 'failed', secs=0.0, why='' if ok else str(why), path='',
                 backends={'enumeration': 1})
        if not ok:
            o['replay'] = dict(call=replay[0] if replay else name, observed=str(why))
        out.append(o)
    get = nv.get_ellipsoid
    rng = random.Random(seed)
    for k, (a, inv, names) in TABLE.items():
        add('registry: ellipsoid %d by number' % k, lambda: (same(get(k), k), get(k)), 'get_ellipsoid(%d)' % k)
        for n in names:
            add('registry: every spelling of %r' % n, lambda: (same(get(Spelling(canon(n))), k), get(Spelling(canon(n)))),
                'get_ellipsoid(%r)' % str(Spelling(canon(n))))
            for _ in range(5 if tier == 'quick' else 50):
                t = spelled(rng, n)
                add('registry: spelling %r' % t, lambda: (same(get(t), k), get(t)), 'get_ellipsoid(%r)' % t)
            for t in (n, n.upper(), n.lower()):
                add('frame by name %r' % t, lambda: ((lambda f: abs(f.a - a) <= 1e-13 * a and abs(f.f * inv - 1) < 1e-13 and
                                                      np.array_equal(f.R_Ee, AXES['e']))(nv.FrameE(name=t)), t),
                    'FrameE(name=%r)' % t)

    def unknown(n):
        def f():
            try:
                r = get(n)
            except KeyError:
                return True, ''
            return False, 'returned %r' % (r,)
        return f
    for n in (0, 20, -1, 100, 'wgs85', 'unknown', '', 'wgs', '84', 'nad', None, 'everest', 'clarke', 'fisher', 'airy', 'wgs84a'):
        add('registry: unknown name %r raises KeyError' % (n,), unknown(n), 'get_ellipsoid(%r)' % (n,))
    add('registry: every spelling of an unknown name raises KeyError', unknown(Spelling('notanellipsoid')))
    for n in ('nope', 77):
        def f():
            try:
                nv.FrameE(name=n)
            except KeyError:
                return True, ''
            return False, 'no exception'
        add('frame of the unknown ellipsoid %r raises KeyError' % (n,), f, 'FrameE(name=%r)' % (n,))
    near = near_misses(nv, rng)
    bad = [n for n in near if not unknown(n)()[0]]
    add('registry: no name close to a registered one is accepted', lambda: (not bad, '%r accepted' % bad[:5]),
        'get_ellipsoid(%r)' % (bad[0] if bad else '',))
    d = nv.FrameE()
    add('default frame is WGS84 with axes e', lambda: (d.a == 6378137.0 and d.f == 1 / 298.257223563 and
                                                       np.array_equal(d.R_Ee, AXES['e']), (d.a, d.f)), 'FrameE()')
    for k, obj in (('GeoPoint', lambda: nv.GeoPoint(0.1, 0.2)), ('Nvector', lambda: nv.Nvector([[1.0], [0], [0]])),
                   ('ECEFvector', lambda: nv.ECEFvector(np.ones((3, 1))))):
        add('default frame of %s is WGS84 with axes e' % k, lambda: ((lambda f: f.a == 6378137.0 and f.f == 1 / 298.257223563 and
                                                                     np.array_equal(f.R_Ee, AXES['e']))(obj().frame), k), k)
    return out


AXES = {'e': np.array([[0, 0, 1.0], [0, 1.0, 0], [-1.0, 0, 0]]), 'E': np.eye(3)}


def inputs(c):
    return dict(a=SemiAxis(), f=Flat(0.9))


def call(nv, x, cfg):
    kw = {}
    if cfg['has'] in ('a', 'af'):
        kw['a'] = x.a
    if cfg['has'] in ('f', 'af'):
        kw['f'] = x.f
    if cfg.get('name'):
        kw['name'] = cfg['name']
    if cfg.get('axes'):
        kw['axes'] = cfg['axes']
    fr = nv.FrameE(**kw)
    obs = [fr.GeoPoint(0.5, 0.25), fr.Nvector(np.array([[1.0], [0.0], [0.0]])), fr.ECEFvector(np.array([[1.0], [2.0], [3.0]]))]
    zero = nv.FrameE(a=x.a, f=0)
    return fr.a, fr.f, np.array(fr.R_Ee), all(o.frame is fr for o in obs), (zero.a, zero.f)


def ensures(m, s, out, cfg):
    a, f, R, ok, zero = out
    base = next(v for k, v in TABLE.items() if canon(cfg.get('name') or 'wgs84') in [canon(n) for n in v[2]])
    wa = s.a if 'a' in cfg['has'] else m.c(float(base[0]))
    wf = s.f if 'f' in cfg['has'] else m.c(1.0 / base[1])
    yield Eq('semi-axis: the given one, else that of the named ellipsoid', m.c(a), wa, 0 if 'a' in cfg['has'] else 1e-6)
    yield Eq('flattening: the given one, else that of the named ellipsoid', m.c(f), wf, 0 if 'f' in cfg['has'] else 1e-15)
    yield Check('rotation of the requested axes', np.array_equal(R, AXES[cfg.get('axes') or 'e']), 'R_Ee')
    yield Check('objects made by the frame carry the frame', ok, 'frame of the objects')
    yield Eq('a flattening of zero is kept', m.c(zero[1]), m.c(0), 0)
    yield Eq('semi-axis of a sphere', m.c(zero[0]), s.a, 0)


CONTRACTS = [
    Contract('frame parameters', ['objects.FrameE.__init__', 'util.get_ellipsoid', 'rotation.E_rotation',
                                  'objects.FrameE.GeoPoint', 'objects.FrameE.Nvector', 'objects.FrameE.ECEFvector'],
             inputs, call, ensures, [dict(N=None, has=h, name=n, axes=ax) for h in ('a', 'f', 'af', '') for n, ax in (
                 (None, None), ('WGS72', 'E'), ('Clarke 1866', 'e'), ('bessel', 'E'))]),
]
