"""Contracts: typed input domains, the two evaluation back ends of a specification, clauses.

A contract is written once and evaluated twice: on symbolic arrays (the obligations handed to the
prover) and on numbers (replay of counterexamples, bounded floating-point companion).
"""
import math
import numpy as np
import mpmath
from . import term as tm
from . import sym
from .sym import SA, S, stack, ew, R1, R2, as_bool

mpf = mpmath.mpf


# =============================================================================== clauses
class Eq(object):
    """got == spec (over the reals); numerically |got - spec| <= tol (absolute; array or number)."""
    kind = 'eq'

    def __init__(self, label, got, spec, tol=1e-12):
        self.label, self.got, self.spec, self.tol = label, got, spec, tol


class Le(object):
    """a <= b; numerically a <= b + tol"""
    kind = 'le'

    def __init__(self, label, a, b, tol=1e-12, strict=False):
        self.label, self.a, self.b, self.tol, self.strict = label, a, b, tol, strict


class Iff(object):
    """boolean got == spec; numerically skipped where `near` holds (rounding at the threshold)."""
    kind = 'iff'

    def __init__(self, label, got, spec, near=None):
        self.label, self.got, self.spec, self.near = label, got, spec, near


class Implies(object):
    """where cond holds, the inner clause holds; numerically only where `sure` holds"""
    kind = 'implies'

    def __init__(self, cond, clause, sure=None):
        self.cond, self.clause, self.sure = cond, clause, sure
        self.label = clause.label


class Shape(object):
    kind = 'shape'

    def __init__(self, label, got, shape):
        self.label, self.got, self.shape = label, got, tuple(shape)


class Check(object):
    """A plain Python truth value already evaluated (identity of frames, type of the result...)."""
    kind = 'check'

    def __init__(self, label, ok, info=''):
        self.label, self.ok, self.info = label, bool(ok), info


# =============================================================================== symbolic back end
class SymMath(object):
    symbolic = True

    def __init__(self, N):
        self.Ncfg = N
        self.N = sym.NDIM if N == 'N' else N
        self.Nt = SA(sym._wrap0(tm.var('#N') if N == 'N' else tm.const(N)), ()) if N is not None else None
        self.pi = sym.PI
        self.warned = []

    def __getattr__(self, name):
        t = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'sqrt': 'sqrt', 'asin': 'arcsin', 'acos': 'arccos',
             'atan2': 'arctan2', 'abs': 'abs', 'where': 'where', 'mod': 'mod', 'maximum': 'maximum',
             'minimum': 'minimum', 'floor': 'floor'}.get(name)
        if t is None:
            raise AttributeError(name)
        return sym.TABLE[t]

    def c(self, x):
        return S(x)

    def vec(self, xs):
        ds, tg = sym.bcast([S(x) for x in xs])
        return stack([SA(d.copy(), tg) for d in ds], 0)

    def uf(self, name, *args):
        return ew(lambda *a: tm.fn('uf:' + name, *[sym.as_real(t) for t in a]), *args)

    def root(self, x, n):
        return ew(R1(lambda t: tm.fn('root%d' % n, t)), x)

    def and_(self, a, b):
        return ew(sym.AND, a, b)

    def or_(self, a, b):
        return ew(sym.OR, a, b)

    def not_(self, a):
        return ew(sym.NOT, a)

    def true(self):
        return S(True)

    def sumcols(self, x):
        return sym.f_sum(x, axis=-1)

    def allcols(self, x):
        return sym.f_all(x)

    def isnan(self, x):
        return sym.TABLE['isnan'](x)

    def flat(self, x):
        """1-d view of scalars / vectors"""
        return S(x).reshape(-1)

    def arr(self, x):
        return S(x)

    def cols(self, x, k=1):
        """array with k leading axes -> add the column axis if it is missing (scalar results)"""
        x = S(x)
        return x if x.ndim > k else x.reshape(*(x.shape + (1,)))


# =============================================================================== numeric back end
def _o(x):
    """float/bool array -> exact mpf object array (bools kept)"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    a = np.asarray(x)
    if a.dtype == bool or a.dtype == object:
        return a
    if a.dtype.kind not in 'iuf':
        raise TypeError('not numeric: %r' % (a.dtype,))
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.astype(float).reshape(-1)
    for i in range(of.size):
        of[i] = mpf(float(af[i]))
    return of.reshape(a.shape)


def _uf1(f):
    g = np.frompyfunc(f, 1, 1)

    def h(x):
        r = g(_o(x))
        return r if isinstance(r, np.ndarray) else _wrap(r)
    return h


def _wrap(r):
    o = np.empty((), dtype=object)
    o[()] = r
    return o


def _uf2(f):
    g = np.frompyfunc(f, 2, 1)

    def h(x, y):
        r = g(_o(x), _o(y))
        return r if isinstance(r, np.ndarray) else _wrap(r)
    return h


def _clampf(f):
    def g(x):
        if abs(x) > 1:
            if abs(x) > 1 + mpf(10) ** -25:
                return mpmath.nan
            x = mpmath.sign(x)
        return f(x)
    return g


def _sqrtf(x):
    return mpmath.sqrt(x) if x >= 0 else (mpf(0) if x > -mpf(10) ** -25 else mpmath.nan)


class NumMath(object):
    symbolic = False

    def __init__(self, N):
        self.Ncfg = self.N = N
        self.Nt = mpf(N) if N is not None else None
        self.pi = +mpmath.pi
        self.warned = []
    sin, cos, tan = staticmethod(_uf1(mpmath.sin)), staticmethod(_uf1(mpmath.cos)), staticmethod(_uf1(mpmath.tan))
    sqrt = staticmethod(_uf1(_sqrtf))
    asin, acos = staticmethod(_uf1(_clampf(mpmath.asin))), staticmethod(_uf1(_clampf(mpmath.acos)))
    atan2 = staticmethod(_uf2(mpmath.atan2))
    abs = staticmethod(_uf1(abs))
    floor = staticmethod(_uf1(mpmath.floor))
    mod = staticmethod(_uf2(lambda a, b: a - b * mpmath.floor(a / b)))
    maximum = staticmethod(_uf2(lambda a, b: a if a >= b else b))
    minimum = staticmethod(_uf2(lambda a, b: a if a <= b else b))

    def where(self, c, a, b):
        r = np.where(np.asarray(c, dtype=bool), _o(a), _o(b))
        return r

    def c(self, x):
        return _o(x)

    def vec(self, xs):
        return np.array(np.broadcast_arrays(*[_o(x) for x in xs]), dtype=object)

    def uf(self, name, *args):
        f = tm.UF_IMPL.get('uf:' + name) or (lambda *v: tm.hashval('uf:' + name, v))
        g = np.frompyfunc(f, len(args), 1)
        r = g(*[_o(a) for a in args])
        return r if isinstance(r, np.ndarray) else _wrap(r)

    def root(self, x, n):
        return _uf1(lambda v: mpmath.root(v, n))(x)

    def and_(self, a, b):
        return np.logical_and(np.asarray(a, bool), np.asarray(b, bool))

    def or_(self, a, b):
        return np.logical_or(np.asarray(a, bool), np.asarray(b, bool))

    def not_(self, a):
        return np.logical_not(np.asarray(a, bool))

    def true(self):
        return np.array(True)

    def sumcols(self, x):
        x = _o(x)
        return x.sum(axis=-1)

    def allcols(self, x):
        return np.array(bool(np.all(np.asarray(x, bool))))

    def isnan(self, x):
        a = _o(x)
        return np.asarray(np.frompyfunc(lambda v: bool(mpmath.isnan(v)), 1, 1)(a), dtype=bool)

    def flat(self, x):
        return _o(x).reshape(-1)

    def arr(self, x):
        return _o(x)

    def cols(self, x, k=1):
        x = _o(x)
        return x if x.ndim > k else x.reshape(x.shape + (1,))


# =============================================================================== common vector helpers
class Vec(object):
    """Mixin-free helpers that work on either back end."""

    @staticmethod
    def dot(u, v):
        return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]

    @staticmethod
    def cross3(u, v):
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]

    @staticmethod
    def norm(m, u):
        return m.sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2])


# =============================================================================== input domains
class Dom(object):
    shape = ()
    unit = False

    def hyps(self, var):
        """facts about one column; var(*component) is the variable"""
        return []

    def gen(self, rng):
        """one generic mp value (list of 3 for vectors)"""
        raise NotImplementedError

    def draw(self, rng):
        """one float value with edge cases"""
        return self.gen(rng)


class Real(Dom):
    """A real number in [lo, hi] (or open ends); shape () or ('N',)"""

    def __init__(self, shape=(), lo=None, hi=None, open_lo=False, open_hi=False, edges=(), scale=1.0, glo=None,
                 ghi=None, pi_units=False, logscale=False):
        self.shape = tuple(shape)
        self.lo, self.hi, self.open_lo, self.open_hi = lo, hi, open_lo, open_hi
        self.edges, self.scale = list(edges), scale
        self.glo, self.ghi = glo, ghi
        self.pi_units = pi_units
        self.logscale = logscale

    def bound(self, b):
        if self.pi_units:
            return tm.mul(tm.const(__import__('fractions').Fraction(b).limit_denominator(1000)), tm.PI)
        return tm.const(b)

    def hyps(self, var):
        x = var()
        out = []
        if self.lo is not None:
            out.append((tm.lt if self.open_lo else tm.le)(self.bound(self.lo), x))
        if self.hi is not None:
            out.append((tm.lt if self.open_hi else tm.le)(x, self.bound(self.hi)))
        return out

    def lim(self):
        u = math.pi if self.pi_units else 1.0
        lo = self.glo if self.glo is not None else (self.lo * u if self.lo is not None else -3.0 * self.scale)
        hi = self.ghi if self.ghi is not None else (self.hi * u if self.hi is not None else lo + 6.0 * self.scale)
        return lo, hi

    def gen(self, rng):
        lo, hi = self.lim()
        if self.logscale and lo > 0:
            return mpf(math.exp(rng.uniform(math.log(lo), math.log(hi))))
        return mpf(rng.uniform(lo, hi))

    def ok(self, v):
        u = math.pi if self.pi_units else 1.0
        if self.lo is not None and (v < self.lo * u or (self.open_lo and v <= self.lo * u)):
            return False
        if self.hi is not None and (v > self.hi * u or (self.open_hi and v >= self.hi * u)):
            return False
        return True

    def draw(self, rng):
        lo, hi = self.lim()
        for _ in range(50):
            r = rng.random()
            if self.edges and r < 0.3:
                v = rng.choice(self.edges)
            elif r < 0.4:
                v = rng.choice([lo, hi, 0.0, lo + (hi - lo) * 1e-9, hi - (hi - lo) * 1e-9])
            else:
                v = float(self.gen(rng))
            if self.ok(v):
                return float(v)
        return float(self.gen(rng))


def Angle(shape=('N',), lo=-1, hi=1, **kw):
    """an angle in units of pi"""
    kw.setdefault('edges', [0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, math.pi / 4, 1e-9, -1e-9,
                            math.pi - 1e-9, -math.pi + 1e-9, 3 * math.pi / 4, -3 * math.pi / 4, 1.5, 3.0])
    return Real(shape, lo, hi, pi_units=True, **kw)


def AnyAngle(shape=('N',)):
    """any real angle"""
    return Real(shape, None, None, glo=-7.0, ghi=7.0,
                edges=[0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, 2 * math.pi, 1e-9, -1e-9, 0.75, -2.5,
                       3 * math.pi, 12.3, -40.0])


SEMI = [6378137.0, 6371009.0, 6378206.4, 6356752.3, 1.0, 6378388.0]


def SemiAxis():
    return Real((), 0, None, open_lo=True, glo=0.5, ghi=9.0, edges=SEMI)


def Flat(hi=1):
    return Real((), 0, hi, open_hi=True, glo=0.05 * min(hi, 0.01), ghi=min(0.6, 0.99 * hi), edges=[0.0, 1 / 298.257223563, 1 / 294.98, 0.01, 0.1])


def Radius(shape=()):
    return Real(shape, 0, None, open_lo=True, glo=0.5, ghi=9.0, edges=[6371009.0, 6378137.0, 1.0, 6371e3])


def _norm3(v):
    n = mpmath.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


S3 = 1 / math.sqrt(3)
EDGE_UNITS = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (0.6, 0.8, 0), (0.6, 0, 0.8),
              (0, 0.6, 0.8), (-0.6, 0.8, 0), (0.8, 0, -0.6), (0, -0.8, 0.6), (S3, S3, S3), (-S3, S3, -S3),
              (1, 1e-9, 0), (-1, 0, 1e-9), (1e-9, 0, 1), (0, 1e-9, -1), (1, 1e-5, 1e-5), (-1, 1e-4, 0), (1e-5, 1, 0),
              (0.999999, 0.001, 0), (1e-3, 1e-3, -1), (0.05, 0.01, 1.0), (1e-9, -1e-9, -1),
              (1, 3e-13, 4e-13), (-1, 1e-11, 0), (2e-13, 1e-12, -1), (1e-7, -1e-8, 1), (1e-11, 1, 1e-7)]


class Unit(Dom):
    """unit vectors, one per column; poles=False excludes the two poles of the given axes"""
    unit = True

    def __init__(self, cols='N', exclude=None):
        self.shape = (3, 'N') if cols == 'N' else (3, 1)
        self.exclude = exclude      # component index (0..2) whose poles +-1 are excluded

    def gen(self, rng):
        return _norm3([mpf(rng.gauss(0, 1)) for _ in range(3)])

    def draw(self, rng):
        for _ in range(30):
            if rng.random() < 0.45:
                v = list(rng.choice(EDGE_UNITS))
                if rng.random() < 0.3:
                    rng.shuffle(v)
            else:
                v = [rng.gauss(0, 1) for _ in range(3)]
            n = math.sqrt(sum(x * x for x in v))
            v = [x / n for x in v]
            if self.exclude is None or abs(v[self.exclude]) < 1 - 1e-6:
                return v
        return [0.6, 0.48, 0.64]

    def hyps(self, var):
        if self.exclude is not None:
            x = var(self.exclude)
            return [tm.lt(tm.mul(x, x), tm.ONE)]
        return []


class Vec3(Dom):
    """arbitrary 3-vectors"""

    def __init__(self, cols='N', scale=1.0, edges=((0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, -3), (1e-9, 0, 0))):
        self.shape = (3, 'N') if cols == 'N' else (3, 1) if cols == 1 else (3,)
        self.scale, self.edges = scale, edges

    def gen(self, rng):
        return [mpf(rng.gauss(0, 1)) * self.scale for _ in range(3)]

    def draw(self, rng):
        if self.edges and rng.random() < 0.25:
            return [float(x) for x in rng.choice(self.edges)]
        return [float(x) for x in self.gen(rng)]


class Mat(Dom):
    """3x3 matrices per column"""

    def __init__(self, cols='N', rows=3, k=3):
        self.rows, self.k = rows, k
        self.shape = (rows, k, 'N') if cols == 'N' else (rows, k)

    def gen(self, rng):
        return [[mpf(rng.gauss(0, 1)) for _ in range(self.k)] for _ in range(self.rows)]

    def draw(self, rng):
        return [[float(x) for x in r] for r in self.gen(rng)]


# -------------------------------------------------------------------------- related columns
def relate(rng, u):
    """a unit vector in a special position relative to the float unit vector u"""
    k = rng.random()
    g = [rng.gauss(0, 1) for _ in range(3)]
    d = sum(a * b for a, b in zip(g, u))
    t = [a - d * b for a, b in zip(g, u)]
    n = math.sqrt(sum(x * x for x in t)) or 1.0
    t = [x / n for x in t]
    if k < 0.12:
        return list(u)
    if k < 0.24:
        return [-x for x in u]
    if k < 0.5:
        e = 10.0 ** rng.uniform(-12, -1)
        s = 1 if rng.random() < 0.6 else -1
        w = [s * (a + e * b) for a, b in zip(u, t)]
    elif k < 0.62:
        w = t                                   # 90 degrees away
    elif k < 0.72:
        th = rng.uniform(0, 2 * math.pi)        # same third coordinate axis circle
        i = rng.choice([0, 1, 2])
        w = list(u)
        a, b = [j for j in range(3) if j != i]
        w[a], w[b] = (math.cos(th) * u[a] - math.sin(th) * u[b], math.sin(th) * u[a] + math.cos(th) * u[b])
    else:
        th = rng.uniform(0.01, math.pi - 0.01)
        w = [math.cos(th) * a + math.sin(th) * b for a, b in zip(u, t)]
    n = math.sqrt(sum(x * x for x in w))
    return [x / n for x in w]


class Inputs(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)


class Contract(object):
    """One contract of one function (or a lemma over several).

    inputs(cfg)  -> ordered dict name -> Dom
    call(nv, x, cfg) -> outputs (anything; arrays are converted by ensures)
    ensures(m, s, out, cfg) -> list of clauses;  s holds the inputs on the back end of m
    requires(m, s, cfg) -> list of boolean arrays (optional)
    """

    def __init__(self, name, functions, inputs, call, ensures, configs, requires=None, stubs=(), pairs=(),
                 draw=None, gen=None, hints=None, num_only=False, sym_only=False, trials=1.0, budget=40.0, mixed=None,
                 keep=None, samples=5, near=None, max_depth=14, note='', bounded_cols=False, frame_check=True,
                 warn_ok=True, cuts=None, stub_pre=True, relational=False):
        self.name, self.functions = name, list(functions)
        self.inputs, self.call, self.ensures, self.configs = inputs, call, ensures, configs
        self.requires, self.stubs, self.pairs = requires, stubs, list(pairs)
        self.draw, self.gen, self.hints = draw, gen, hints
        self.num_only, self.sym_only = num_only, sym_only
        self.trials, self.budget = trials, budget
        self.keep = keep            # numeric filter of drawn inputs: keep(s) -> bool
        self.samples = samples
        self.max_depth = max_depth
        self.note = note
        self.bounded_cols = bounded_cols
        self.cuts = cuts
        self.frame_check = frame_check
        self.relational = relational    # the clauses compare two runs of the same operations
        self.stub_pre = stub_pre        # preconditions of the stubs are obligations of the caller


class Cut(object):
    """A named intermediate value of the proof: equal values met later are abstracted to a name.

    facts (list of clauses) are proved when the cut is introduced and assumed afterwards; unfold: the final
    normal form may replace the name by its definition; rule (power, value): name**power == value (proved).
    """

    def __init__(self, name, term, facts=(), unfold=False, rule=None):
        self.name, self.term, self.facts, self.unfold, self.rule = name, term, list(facts), unfold, rule


class Rule(object):
    """The cut `name` has this value (proved); used as a rewrite rule from then on."""

    def __init__(self, label, name, value):
        self.label, self.name, self.value = label, name, value


# -------------------------------------------------------------------------- building inputs
def sym_inputs(con, cfg):
    N = cfg.get('N')
    s = Inputs()
    hyps, units = [], []
    for name, dom in con.inputs(cfg).items():
        if not isinstance(dom, Dom):
            s[name] = dom
            continue
        s[name] = sym.sym_array(name, dom.shape, N)
        tail = '.0' if len(dom.shape) == 2 and dom.shape[1] == 1 else ''
        if dom.unit:
            units.append(tuple('%s.%d%s' % (name, i, tail) for i in range(3)))
        if 'N' in dom.shape:
            cols = [('j',)] if N == 'N' else [(i,) for i in range(N)]
        else:
            cols = [()]
        for c in cols:
            hyps += dom.hyps(lambda *comp: tm.var(name + ''.join('.%d' % i for i in comp) + tail, *c))
    return s, hyps, units


def env_from_values(con, cfg, vals, ncols):
    """vals: name -> mp array (numpy object) in numeric layout; returns the evaluation environment"""
    env = {'#columns': ncols, ('#N', ()): mpf(ncols)}
    for name, dom in con.inputs(cfg).items():
        if not isinstance(dom, Dom):
            continue
        v = vals[name]
        for idx in np.ndindex(*v.shape):
            comp = [i for k, i in enumerate(idx) if dom.shape[k] != 'N']
            cols = tuple(i for k, i in enumerate(idx) if dom.shape[k] == 'N')
            env[(name + ''.join('.%d' % c for c in comp), cols)] = v[idx]
    return env


def build(con, cfg, ncols, one, related=None):
    """one(dom) -> a value; returns name -> object array"""
    out = {}
    for name, dom in con.inputs(cfg).items():
        if not isinstance(dom, Dom):
            out[name] = dom
            continue
        shp = [ncols if q == 'N' else q for q in dom.shape]
        arr = np.empty(shp, dtype=object)
        if 'N' in dom.shape:
            for c in range(ncols):
                v = np.array(one(name, dom, c), dtype=object)
                arr[..., c] = v
        elif len(dom.shape) == 2 and dom.shape[-1] == 1 and not isinstance(dom, Mat):
            arr[:, 0] = np.array(one(name, dom, 0), dtype=object)
        elif dom.shape:
            arr[...] = np.array(one(name, dom, 0), dtype=object)
        else:
            arr[()] = one(name, dom, 0)
        out[name] = arr
    return out


def generic_values(con, cfg, rng, ncols):
    if con.gen is not None:
        g = con.gen(cfg, rng, ncols)
        if g is not None:
            return g
    return build(con, cfg, ncols, lambda name, dom, c: dom.gen(rng))


def edge_values(con, cfg, rng, ncols):
    """float inputs with edge cases"""
    if con.draw is not None:
        g = con.draw(cfg, rng, ncols)
        if g is not None:
            return {k: (np.array(v, dtype=float) if not isinstance(v, (str, bool, type(None))) else v)
                    for k, v in g.items()}
    drawn = {}

    def one(name, dom, c):
        for src, dst in con.pairs:
            if dst == name and rng.random() < 0.65:
                base = drawn.get((src, c)) or drawn.get((src, 0))
                if base is not None:
                    v = relate(rng, base)
                    if dom.exclude is None or abs(v[dom.exclude]) < 1 - 1e-6:
                        drawn[(name, c)] = v
                        return v
        if 'N' in dom.shape and c and rng.random() < 0.1:
            v = drawn[(name, c - 1)]
        else:
            v = dom.draw(rng)
        drawn[(name, c)] = v
        return v
    vals = build(con, cfg, ncols, one)
    out = {}
    for k, v in vals.items():
        out[k] = v.astype(float) if isinstance(v, np.ndarray) and v.dtype == object else v
    return out
