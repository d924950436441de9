"""Symbolic execution of the real nvector code: arrays of terms with a numpy-compatible surface.

`SA` wraps an object ndarray of terms.  An axis may be *symbolic* (length N, the arbitrary number of
columns): it is stored with size 1 and carries an index tag; its single entry is the term of the
generic column.  N stands for every length >= 2 other than 3; lengths 1 and 3 are run concretely.
Whatever is not supported raises Unsupported - never a silent approximation.
"""
import builtins
import linecache
import math
import operator
import os
import sys
import types
import warnings
from fractions import Fraction
import numpy as np
from . import term as tm
from .term import T

TAGS = 'jklmopqr'
REAL_NP = np
HERE = os.path.dirname(os.path.abspath(__file__))


class Unsupported(Exception):
    pass


class Abort(BaseException):
    pass


# --------------------------------------------------------------------------- symbolic length
SIZES = set()       # numbers the symbolic length was compared with: the bounded companion runs with columns around them


def length(op, k, factor=1):
    """Is N == k (N < k)?  N is any length >= 2 other than 3.  Where both answers are possible the run forks; what is
    learned holds for the rest of the path (an interval and excluded lengths)."""
    k = int(k)
    if factor != 1:
        if op == 'eq' and k % factor:
            return False
        k = -(-k // factor)
    if op == 'eq' and (k < 2 or k == 3):
        return False
    if op == 'lt' and k <= 2:
        return False
    SIZES.add(k)
    ex = Explorer.current
    if ex is None:
        raise Unsupported('comparison of the symbolic length with %d' % k)
    return ex.choose_length(op, k)


class SymDim(object):
    """N, or a multiple of it"""

    def __init__(self, factor=1):
        self.factor = factor

    def __eq__(self, o):
        if isinstance(o, SymDim):
            return self.factor == o.factor
        if isinstance(o, (int, np.integer)):
            return length('eq', o, self.factor)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 12345

    def __lt__(self, o):
        if isinstance(o, SymDim):
            return self.factor < o.factor
        if isinstance(o, (int, float, np.integer, np.floating)) and abs(o) < 1e15:
            return length('lt', math.ceil(o), self.factor)
        raise Unsupported('ordering of the symbolic length')

    def __le__(self, o):
        if isinstance(o, SymDim):
            return self.factor <= o.factor
        if isinstance(o, (int, float, np.integer, np.floating)) and abs(o) < 1e15:
            return length('lt', math.floor(o) + 1, self.factor)
        raise Unsupported('ordering of the symbolic length')

    def __gt__(self, o):
        return not self <= o

    def __ge__(self, o):
        return not self < o

    def __index__(self):
        raise Unsupported('symbolic length used as an integer')

    __int__ = __index__

    def _arith(self, *a):
        raise Unsupported('arithmetic on the symbolic length')
    __add__ = __radd__ = __sub__ = __rsub__ = __floordiv__ = __mod__ = _arith

    def __mul__(self, o):
        if isinstance(o, (int, np.integer)) and o > 0:
            return SymDim(self.factor * int(o))
        raise Unsupported('arithmetic on the symbolic length')
    __rmul__ = __mul__

    def __bool__(self):
        return True

    def __repr__(self):
        return 'N'


NDIM = SymDim()


# --------------------------------------------------------------------------- exploration
class Explorer(object):
    current = None

    def __init__(self, decide=None, limit=64):
        self.decide = decide or (lambda c, path: None)
        self.limit = limit

    def choose(self, c):
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        if ITER in c.tags:
            raise Unsupported('decision on one entry inside a loop over the symbolic axis')
        for p in self.path:
            if p is c:
                return True
            if p is tm.bnot(c):
                return False
        d = self.decide(c, self.path)
        if d is not None:
            return d
        r = self.decide_free()
        self.path.append(c if r else tm.bnot(c))
        return r

    def choose_length(self, op, k):
        lo, hi, ne = self.bounds
        if op == 'eq':
            if k < lo or k > hi or k in ne:
                return False
            if lo == hi:
                return True
        else:
            if hi < k:
                return True
            if lo >= k:
                return False
        r = self.decide_free()
        if op == 'eq':
            if r:
                lo = hi = k
            else:
                ne = ne | {k}
        elif r:
            hi = k - 1
        else:
            lo = k
        while lo in ne and lo < hi:
            lo += 1
        while hi in ne and lo < hi:
            hi -= 1
        self.bounds = lo, hi, ne
        return r

    def decide_free(self):
        """a decision without a condition: both branches are followed"""
        if self.pos < len(self.script):
            r = self.script[self.pos]
        else:
            r = True
            self.script.append(True)
        self.pos += 1
        return r

    def run(self, fn):
        """Enumerate all paths of fn().  Yields (path, kind, value, warned)."""
        out = []
        self.script = []
        prev = Explorer.current
        Explorer.current = self
        try:
            while True:
                self.pos, self.path = 0, []
                self.bounds = 2, float('inf'), frozenset([3])
                warned = []
                old = warnings.warn

                def warn(message, category=None, stacklevel=1, *a, **k):
                    warned.append((str(message), category or UserWarning))
                warnings.warn = warn
                try:
                    try:
                        val, kind = fn(), 'return'
                    except Unsupported:
                        raise
                    except (AssertionError, MemoryError, RecursionError):
                        raise
                    except Exception as e:
                        if engine_fault(e):
                            raise Unsupported('engine: %s: %s' % (type(e).__name__, e))
                        val, kind = e, 'raise'
                finally:
                    warnings.warn = old
                out.append((list(self.path), kind, val, warned))
                if len(out) > self.limit:
                    raise Unsupported('too many paths')
                self.script = self.script[:self.pos]
                while self.script and self.script[-1] is False:
                    self.script.pop()
                if not self.script:
                    return out
                self.script[-1] = False
        finally:
            Explorer.current = prev


def engine_fault(e):
    """an operation inside of the engine failed by accident (not by a `raise` that models numpy's behaviour): nothing is known
    about the code"""
    if not isinstance(e, (AttributeError, TypeError, NameError, KeyError, ZeroDivisionError)):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    name = tb.tb_frame.f_code.co_filename
    if os.path.dirname(os.path.abspath(name)) != HERE:
        return False
    return not linecache.getline(name, tb.tb_lineno).strip().startswith('raise')


# --------------------------------------------------------------------------- loops over the columns
ITER = '#it'
LOOP = {'yielded': 0, 'done': 0}


def foreach(x):
    """Rule for a loop `for v in x` over all N entries whose body handles each entry alone: the body is executed
    once, on the generic entry (free index '#it').  A list to which the loop contributed exactly one item per entry
    is gathered into an array with the generic item (`gather`).  Anything else that the loop leaves behind - a state
    carried over, a decision that depends on the entry, a loop that is left early - still contains the free index
    and is refused (`Explorer.choose`, `verify.discharge`); such code is examined for concrete N only."""
    if x.ndim != 1 or ITER in x.d[0].tags:
        raise Unsupported('iteration over the symbolic axis')
    LOOP['yielded'] += 1
    yield SA(fmap(lambda t: tm.retag(t, {x.tg[0]: ITER}), x.d).reshape(()), ())
    LOOP['done'] += 1


def has_iter(x):
    return any(ITER in t.tags for t in x.d.reshape(-1))


def gather(items):
    """[generic item] -> array over all entries"""
    if len(items) != 1 or LOOP['yielded'] and not LOOP['done']:
        raise Unsupported('a loop over the symbolic axis that is not element by element')
    i = items[0]
    if any(t is not None for t in i.tg):
        raise Unsupported('array valued items of a loop over the symbolic axis')
    return SA(fmap(lambda t: tm.retag(t, {ITER: TAGS[0]}), i.d).reshape((1,) + i.d.shape), (TAGS[0],) + i.tg)


# --------------------------------------------------------------------------- arrays
def to_term(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, np.bool_)):
        return tm.TRUE if x else tm.FALSE
    if isinstance(x, (int, np.integer)):
        return tm.const(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x in (float('inf'), float('-inf')):
            raise Unsupported('infinity')
        return tm.const(x)
    if isinstance(x, Fraction):
        return tm.const(x)
    raise Unsupported('value of type %s in a symbolic array' % type(x).__name__)


def obj(shape):
    return np.empty(shape, dtype=object)


def fmap(f, *ds):
    """elementwise over equally shaped object arrays"""
    out = obj(ds[0].shape)
    if out.ndim == 0:
        out[()] = f(*[d[()] for d in ds])
        return out
    o = out.reshape(-1)
    for i, xs in enumerate(zip(*[d.reshape(-1) for d in ds])):
        o[i] = f(*xs)
    return o.reshape(out.shape)


def canon(d, tg):
    """Rename the tags so that they are canonical (rightmost symbolic axis = 'j')."""
    n = 0
    mapping = {}
    new = list(tg)
    for ax in range(len(tg) - 1, -1, -1):
        if tg[ax] is not None:
            new[ax] = TAGS[n]
            mapping[tg[ax]] = TAGS[n]
            n += 1
    if any(k != v for k, v in mapping.items()):
        d = fmap(lambda t: tm.retag(t, mapping), d)
    return d, tuple(new)


def S(x):
    """Convert to SA."""
    if isinstance(x, SA):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            if any(isinstance(e, SA) for e in x.reshape(-1)):
                return S(x.tolist())
        return SA(fmap(to_term, x.astype(object)), (None,) * x.ndim)
    if isinstance(x, (list, tuple)):
        items = [S(e) for e in x]
        if not items:
            return SA(obj((0,)), (None,))
        if isinstance(x, list) and any(has_iter(i) for i in items):
            return gather(items)
        return stack(items, 0)
    d = obj(())
    d[()] = to_term(x)
    return SA(d, ())


def bcast(arrs):
    arrs = [S(a) for a in arrs]
    nd = max(a.d.ndim for a in arrs)
    sizes = [1] * nd
    isn = [False] * nd
    padded = []
    for a in arrs:
        k = nd - a.d.ndim
        padded.append((a.d.reshape((1,) * k + a.d.shape), (None,) * k + a.tg))
    for d, tg in padded:
        for ax in range(nd):
            if tg[ax] is not None:
                isn[ax] = True
    for d, tg in padded:
        for ax in range(nd):
            s = d.shape[ax]
            if tg[ax] is None and s != 1:
                if isn[ax]:
                    raise ValueError('operands could not be broadcast together (N and %d)' % s)
                if sizes[ax] not in (1, s):
                    raise ValueError('operands could not be broadcast together')
                sizes[ax] = s
    tags = [None] * nd
    n = 0
    for ax in range(nd - 1, -1, -1):
        if isn[ax]:
            tags[ax] = TAGS[n]
            n += 1
    out = []
    for d, tg in padded:
        mp = {tg[ax]: tags[ax] for ax in range(nd) if tg[ax] is not None and tg[ax] != tags[ax]}
        if mp:
            d = fmap(lambda t: tm.retag(t, mp), d)
        out.append(np.broadcast_to(d, sizes))
    return out, tuple(tags)


def ew(f, *arrs):
    masks = [a.mask for a in arrs if isinstance(a, Sel)]
    ds, tg = bcast(arrs)
    r = fmap(f, *ds)
    if masks:
        m = masks[0]
        for o in masks[1:]:
            if o is not m and not (o.tg == m.tg and o.d.shape == m.d.shape and
                                   all(x is y for x, y in zip(o.d.reshape(-1), m.d.reshape(-1)))):
                raise Unsupported('selections with different masks')
        return Sel(r, tg, m)
    return SA(r, tg)


def stack(items, axis):
    nd = max(i.d.ndim for i in items)
    if any(i.d.ndim != nd for i in items):
        raise ValueError('inhomogeneous shape')
    for i in items[1:]:
        if i.shape != items[0].shape:
            raise ValueError('all input arrays must have the same shape')
    if axis < 0:
        axis += nd + 1
    tg = items[0].tg
    free = set()
    return SA(np.stack([i.d for i in items], axis) if nd else _vec([i.d[()] for i in items]),
              tg[:axis] + (None,) + tg[axis:])


def _vec(lst):
    o = obj((len(lst),))
    for i, x in enumerate(lst):
        o[i] = x
    return o


def concat(items, axis):
    items = [S(i) for i in items]
    nd = items[0].d.ndim
    if any(i.d.ndim != nd for i in items):
        raise ValueError('all the input array dimensions must match')
    if axis < 0:
        axis += nd
    if any(i.tg[axis] is not None for i in items):
        if len(items) == 1:
            return items[0]
        raise Unsupported('concatenation along the symbolic axis')
    ref = items[0].shape
    for i in items:
        s = i.shape
        for ax in range(nd):
            if ax != axis and s[ax] != ref[ax]:
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    return SA(np.concatenate([i.d for i in items], axis), items[0].tg)


def pow_term(a, b):
    if b.op != 'const':
        if a.op == 'const' and a.val > 0:
            return tm.fn('exp', tm.mul(b, tm.fn('log', a)))
        return tm.fn('uf:pow', a, b)
    e = b.val
    if e.denominator == 1:
        return tm.power(a, int(e))
    if e == Fraction(1, 2):
        return tm.fn('sqrt', a)
    if e == Fraction(-1, 2):
        return tm.div(tm.ONE, tm.fn('sqrt', a))
    if e == Fraction(3, 2):
        return tm.mul(a, tm.fn('sqrt', a))
    for n in range(3, 10):
        if abs(e - Fraction(1, n)) < Fraction(1, 2 ** 53):   # 1. / n is the float nearest to 1/n
            return tm.fn('root%d' % n, a)
    return tm.fn('uf:pow', a, b)


def as_bool(t):
    if t.isbool:
        return t
    if t.op == 'const':
        return tm.TRUE if t.val != 0 else tm.FALSE
    return tm.bnot(tm.eq(t, tm.ZERO))


def as_real(t):
    if t.isbool:
        return tm.ite(t, tm.ONE, tm.ZERO)
    return t


def R2(f):
    return lambda a, b: f(as_real(a), as_real(b))


def R1(f):
    return lambda a: f(as_real(a))


def mod_term(a, b):
    a, b = as_real(a), as_real(b)
    if a.op == 'const' and b.op == 'const' and b.val != 0:
        return tm.const(a.val - b.val * (a.val // b.val))
    return tm.fn('mod', a, b)


def ne_term(a, b):
    if a.isbool and b.isbool:
        return tm.bnot(tm.ite(a, b, tm.bnot(b)))
    return tm.bnot(tm.eq(as_real(a), as_real(b)))


def eq_term(a, b):
    return tm.bnot(ne_term(a, b))


ADD, SUB, MUL, DIV, POW, MOD = map(R2, (tm.add, tm.sub, tm.mul, tm.div, pow_term, mod_term))
LT, LE = R2(tm.lt), R2(tm.le)
GT, GE = (lambda a, b: LT(b, a)), (lambda a, b: LE(b, a))


def AND(a, b):
    return tm.band(as_bool(a), as_bool(b))


def OR(a, b):
    return tm.bor(as_bool(a), as_bool(b))


def NOT(a):
    return tm.bnot(as_bool(a))


def NEG(a):
    return tm.neg(as_real(a))


def FLOORDIV(a, b):
    return tm.fn('floor', tm.div(as_real(a), as_real(b)))


def can(o):
    return isinstance(o, (SA, int, float, np.ndarray, np.number, np.bool_, bool, list, tuple, Fraction))


def binop(f, swap=False):
    def op(self, o):
        if not can(o):
            return NotImplemented
        return ew(f, o, self) if swap else ew(f, self, o)
    return op


def inplace(f):
    def op(self, o):
        r = ew(f, self, o)
        if r.d.shape != self.d.shape or r.tg != self.tg:
            raise ValueError('non-broadcastable output operand')
        self.d[...] = r.d
        return self
    return op


class SA(object):
    __array_priority__ = 1000
    __slots__ = ('d', 'tg', '__weakref__')

    def __init__(self, d, tg):
        self.d, self.tg = canon(d, tg) if any(x is not None for x in tg) else (d, tuple(tg))

    # -- structure
    @property
    def shape(self):
        return tuple(NDIM if g is not None else s for s, g in zip(self.d.shape, self.tg))

    @property
    def ndim(self):
        return self.d.ndim

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = s * n if isinstance(s, SymDim) else n * s
        return n

    @property
    def dtype(self):
        it = self.d.reshape(-1)
        if len(it) and all(t.isbool for t in it):
            return np.dtype(bool)
        return np.dtype(float)

    def __len__(self):
        if self.d.ndim == 0:
            raise TypeError('len() of unsized object')
        if self.tg[0] is not None:
            raise Unsupported('len of the symbolic axis')
        return self.d.shape[0]

    def __iter__(self):
        if self.d.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        if self.tg[0] is not None:
            return foreach(self)
        return iter([self[i] for i in range(self.d.shape[0])])

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(range(self.ndim))[::-1]
        axes = tuple(a % self.ndim for a in axes)
        return SA(self.d.transpose(axes), tuple(self.tg[a] for a in axes))

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        a, b = a % self.ndim, b % self.ndim
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *shape, **kw):
        if kw.get('order', 'C') != 'C':
            raise Unsupported('reshape order')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        P = 1000003
        src = [P if g is not None else s for s, g in zip(self.d.shape, self.tg)]
        tot = 1
        for s in src:
            tot *= s
        want = []
        for s in shape:
            want.append(P if isinstance(s, SymDim) else int(s))
        if -1 in want:
            rest = 1
            for s in want:
                if s != -1:
                    rest *= s
            if rest == 0 or tot % rest:
                raise ValueError('cannot reshape array')
            want[want.index(-1)] = tot // rest
        chk = 1
        for s in want:
            chk *= s
        if chk != tot:
            raise ValueError('cannot reshape array of size %r into shape %r' % (src, shape))
        # every symbolic axis must survive as an axis of its own
        tags = [g for g in self.tg if g is not None]
        newtg = []
        for s in want:
            if s == P:
                if not tags:
                    raise Unsupported('reshape')
                newtg.append(tags.pop(0))
            elif s % P == 0 and s:
                raise Unsupported('reshape merges the symbolic axis')
            else:
                newtg.append(None)
        if tags:
            raise Unsupported('reshape merges the symbolic axis')

        def segs(sz):
            out, cur = [], 1
            for s in sz:
                if s == P:
                    out.append(cur)
                    cur = 1
                else:
                    cur *= s
            return out + [cur]
        if segs(src) != segs(want):
            raise Unsupported('reshape moves data across the symbolic axis')
        return SA(self.d.reshape([1 if s == P else s for s in want]), tuple(newtg))

    def ravel(self, order='C'):
        return self.reshape(-1)

    def flatten(self, order='C'):
        return self.reshape(-1).copy()

    def squeeze(self, axis=None):
        if axis is None:
            axs = [i for i in range(self.ndim) if self.tg[i] is None and self.d.shape[i] == 1]
        else:
            axs = [a % self.ndim for a in (axis if isinstance(axis, tuple) else (axis,))]
            for a in axs:
                if self.tg[a] is not None or self.d.shape[a] != 1:
                    raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        keep = [i for i in range(self.ndim) if i not in axs]
        return SA(self.d.reshape([self.d.shape[i] for i in keep]), tuple(self.tg[i] for i in keep))

    def copy(self, order='C'):
        return SA(self.d.copy(), self.tg)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def astype(self, dtype, **kw):
        k = np.dtype(dtype).kind
        if k == 'b':
            return SA(fmap(as_bool, self.d), self.tg)
        if k in 'iu':
            raise Unsupported('integer conversion')
        if np.dtype(dtype).itemsize < 8:
            raise Unsupported('reduced precision')
        return SA(fmap(as_real, self.d), self.tg)

    def item(self, *a):
        r = self[a] if a else self.reshape(())
        return r

    def tolist(self):
        raise Unsupported('tolist')

    def fill(self, v):
        self.d[...] = S(v).d

    def _has_n(self):
        return any(g is not None for g in self.tg)

    # -- truth
    def __bool__(self):
        if self._has_n() or self.d.size != 1:
            if self.d.size == 0:
                return False
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        t = as_bool(self.d.reshape(-1)[0])
        if Explorer.current is None:
            if t is tm.TRUE:
                return True
            if t is tm.FALSE:
                return False
            raise Unsupported('truth value outside an exploration')
        return Explorer.current.choose(t)

    def scalar_term(self):
        if self._has_n() or self.d.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return self.d.reshape(-1)[0]

    def __float__(self):
        t = self.scalar_term()
        if t.op == 'const':
            return float(t.val)
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        raise Unsupported('int() of a symbolic value')
    __index__ = __int__

    def __format__(self, spec):
        return '<symbolic>'

    def __repr__(self):
        return 'SA(%s)' % (self.d.tolist() if self.d.size < 12 else self.shape,)

    __hash__ = None

    # -- arithmetic
    __add__, __radd__ = binop(ADD), binop(ADD, True)
    __sub__, __rsub__ = binop(SUB), binop(SUB, True)
    __mul__, __rmul__ = binop(MUL), binop(MUL, True)
    __truediv__, __rtruediv__ = binop(DIV), binop(DIV, True)
    __pow__, __rpow__ = binop(POW), binop(POW, True)
    __mod__, __rmod__ = binop(MOD), binop(MOD, True)
    __floordiv__, __rfloordiv__ = binop(FLOORDIV), binop(FLOORDIV, True)
    __lt__, __le__, __gt__, __ge__ = binop(LT), binop(LE), binop(GT), binop(GE)

    def __eq__(self, o):
        if not can(o):
            return False
        return ew(eq_term, self, o)

    def __ne__(self, o):
        if not can(o):
            return True
        return ew(ne_term, self, o)
    __and__, __rand__ = binop(AND), binop(AND, True)
    __or__, __ror__ = binop(OR), binop(OR, True)
    __iadd__, __isub__, __imul__, __itruediv__ = inplace(ADD), inplace(SUB), inplace(MUL), inplace(DIV)
    __ipow__, __iand__, __ior__ = inplace(POW), inplace(AND), inplace(OR)
    __imod__ = inplace(MOD)

    def __xor__(self, o):
        return ew(lambda a, b: ne_term(as_bool(a), as_bool(b)), self, o)

    def __invert__(self):
        return ew(NOT, self)

    def __neg__(self):
        return ew(NEG, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return ew(R1(lambda t: tm.fn('abs', t)), self)

    def __matmul__(self, o):
        return f_matmul(self, o)

    def __rmatmul__(self, o):
        return f_matmul(o, self)

    def __getattr__(self, name):
        m = METHODS.get(name)
        if m is not None:
            return lambda *a, **k: m(self, *a, **k)
        if name.startswith('__'):
            raise AttributeError(name)
        if hasattr(np.ndarray, name):
            raise Unsupported('ndarray.' + name)
        raise AttributeError("'numpy.ndarray' object has no attribute %r" % name)

    # -- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__' or kw:
            if method == 'reduce' and ufunc in (np.add, np.logical_or, np.logical_and):
                f = {np.add: f_sum, np.logical_or: f_any, np.logical_and: f_all}[ufunc]
                kw.setdefault('axis', 0)
                return f(*inputs, **kw)
            raise Unsupported('ufunc %s.%s %r' % (ufunc.__name__, method, kw))
        f = TABLE.get(UFUNC_ALIAS.get(ufunc.__name__, ufunc.__name__))
        if f is None:
            raise Unsupported('ufunc ' + ufunc.__name__)
        return f(*inputs)

    def __array_function__(self, func, types_, args, kw):
        f = None
        if func.__module__ == 'numpy.linalg' or getattr(np.linalg, func.__name__, None) is func:
            f = LINALG.get(func.__name__)
        if f is None:
            f = TABLE.get(func.__name__)
        if f is None:
            raise Unsupported('numpy function ' + func.__name__)
        return f(*args, **kw)

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic array to a real ndarray')

    # -- indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = [S(k) if isinstance(k, np.ndarray) and k.dtype == bool else k for k in key]
        out = []
        used = sum(1 for k in key if k is not None and k is not Ellipsis)
        extra = [k.ndim for k in key if isinstance(k, SA) and k.ndim > 1 and k.dtype == bool]
        used += sum(e - 1 for e in extra)
        seen = False
        for k in key:
            if k is Ellipsis:
                if seen:
                    raise IndexError('only one ellipsis')
                seen = True
                out += [slice(None)] * (self.ndim - used)
            else:
                out.append(k)
        if not seen:
            out += [slice(None)] * (self.ndim - used)
        if used > self.ndim:
            raise IndexError('too many indices for array')
        return out

    def _zero_mask(self, key):
        """boolean 0-d key on a 0-d array"""
        if self.ndim == 0 and isinstance(key, (SA, bool, np.bool_, np.ndarray)):
            m = S(key)
            if m.ndim == 0 and m.dtype == bool:
                return m
        return None

    def __getitem__(self, key):
        zm = self._zero_mask(key)
        if zm is not None:
            return Sel(self.d.copy(), self.tg, zm)
        ks = self._norm_key(key)
        if any(isinstance(k, (SA, IdxSet)) or (isinstance(k, np.ndarray) and k.dtype == bool) for k in ks):
            return self._get_mask(ks)
        d, tg = self.d, self.tg
        nk, ntg = [], []
        ax = 0
        fix = {}
        adv = False
        for k in ks:
            if k is None:
                nk.append(None)
                ntg.append(None)
                continue
            g = tg[ax]
            if isinstance(k, (int, np.integer)) and not isinstance(k, bool):
                if g is not None:
                    if k < 0:
                        raise Unsupported('negative index on the symbolic axis')
                    if k > 1:
                        raise Unsupported('index beyond the first two symbolic columns')
                    fix[g] = int(k)
                    nk.append(0)
                else:
                    nk.append(int(k))
            elif isinstance(k, slice):
                if g is not None:
                    if k not in (slice(None), slice(None, None, 1), slice(0, None)):
                        raise Unsupported('slice of the symbolic axis')
                    nk.append(slice(None))
                else:
                    nk.append(k)
                ntg.append(g)
            elif isinstance(k, (list, np.ndarray, tuple)):
                if g is not None or adv:
                    raise Unsupported('fancy indexing')
                adv = True
                k = np.asarray(k)
                if k.ndim != 1:
                    raise Unsupported('fancy indexing')
                if any(isinstance(q, (int, np.integer)) for q in ks):
                    raise Unsupported('mixed fancy indexing')
                nk.append(k)
                ntg.append(None)
            else:
                raise Unsupported('index of type %s' % type(k).__name__)
            ax += 1
        r = d[tuple(nk)]
        if not isinstance(r, np.ndarray):
            o = obj(())
            o[()] = r
            r = o
        if fix:
            r = fmap(lambda t: tm.retag(t, fix), r)
        if any(g is not None for g in ntg):
            r2, t2 = canon(r, tuple(ntg))
            out = SA.__new__(SA)
            out.d, out.tg = r2, t2
            return out
        out = SA.__new__(SA)
        out.d, out.tg = r, tuple(ntg)
        return out

    def _mask_arr(self, ks):
        """boolean SA of the shape of self[...] selected by the keys, for mask/IdxSet keys.

        Returns (basic key to apply first, mask broadcastable to the basic result, full_mask flag)"""
        if len(ks) == 1 or (len(ks) == self.ndim and isinstance(ks[0], SA) and ks[0].ndim == self.ndim):
            k = ks[0]
            m = k.conds if isinstance(k, IdxSet) else S(k)
            if m.ndim == self.ndim:
                if m.shape != self.shape:
                    raise IndexError('boolean index did not match')
                return (slice(None),) * self.ndim, m
        basic = []
        mask = None
        ax = 0
        outax = 0
        for k in ks:
            if isinstance(k, IdxSet) or isinstance(k, (SA, np.ndarray)):
                m = k.conds if isinstance(k, IdxSet) else S(k)
                if m.ndim != 1 or mask is not None or m.dtype != bool:
                    raise Unsupported('mask indexing')
                if m.shape[0] != self.shape[ax]:
                    if isinstance(k, IdxSet):
                        # indices beyond the axis (all candidates must be in range)
                        raise Unsupported('index set of another length')
                    raise IndexError('boolean index did not match')
                mask = (outax, m)
                basic.append(slice(None))
                ax += 1
                outax += 1
            elif k is None:
                basic.append(k)
                outax += 1
            else:
                basic.append(k)
                ax += 1
                if isinstance(k, slice):
                    outax += 1
        pos, m = mask
        sub = self[tuple(basic)]
        shp = [1] * sub.ndim
        mm = SA(m.d, m.tg)
        idx = [None] * sub.ndim
        idx[pos] = slice(None)
        return tuple(basic), mm[tuple(idx)]

    def _get_mask(self, ks):
        basic, m = self._mask_arr(ks)
        sub = self[basic]
        return Sel(sub.d, sub.tg, m)

    def __setitem__(self, key, value):
        zm = self._zero_mask(key)
        if zm is not None:
            if isinstance(value, Sel) and not same_mask(value.mask, zm):
                raise Unsupported('assignment of a selection with another mask')
            v = SA(value.d, value.tg) if isinstance(value, Sel) else S(value)
            if v.ndim == 1 and v.shape == (1,) and not isinstance(value, Sel):
                v = v[0]            # a selection made by numpy itself
            elif v.shape == (0,) and zm.ndim == 0 and zm.d[()] is tm.FALSE:
                return              # ... which is empty
            r = ew(lambda c, a, b: tm.ite(c, as_like(a, b), b), zm, v, SA(self.d.copy(), self.tg))
            if r.ndim:
                raise ValueError('could not broadcast input array')
            self.d[()] = r.d[()]
            return
        ks = self._norm_key(key)
        if any(isinstance(k, (SA, IdxSet)) for k in ks):
            basic, m = self._mask_arr(ks)
            sub = self[basic]
            if isinstance(value, Sel):
                if not same_mask(value.mask, m):
                    raise Unsupported('assignment of a selection with another mask')
                v = SA(value.d, value.tg)
            else:
                v = S(value)
                if v._has_n():
                    raise Unsupported('assignment of a symbolic-length value to a selection')
                if v.ndim == 1 and m.shape == sub.shape and not m._has_n() and all(
                        t is tm.TRUE or t is tm.FALSE for t in m.d.reshape(-1)):
                    # a mask known in advance: the selection is an ordinary list of entries
                    hit = [i for i, t in enumerate(m.d.reshape(-1)) if t is tm.TRUE]
                    if v.shape[0] not in (1, len(hit)):
                        raise ValueError('cannot assign %d input values to %d outputs' % (v.shape[0], len(hit)))
                    new = sub.d.copy()
                    flat = new.reshape(-1)
                    for k, i in enumerate(hit):
                        flat[i] = as_like(v.d[k if v.shape[0] > 1 else 0], flat[i])
                    self._write(basic, flat.reshape(new.shape))
                    return
            r = ew(lambda c, a, b: tm.ite(c, as_like(a, b), b), m, v, sub)
            if r.tg != sub.tg or r.d.shape != sub.d.shape:
                raise ValueError('could not broadcast input array')
            self._write(basic, r.d)
            return
        v = S(value)
        sub = self[tuple(ks)]
        ds, tg = bcast([v, SA(sub.d, sub.tg)])
        extra = ds[0].ndim - sub.ndim
        dv, tv = ds[0], tg
        if extra > 0:
            if any(dv.shape[i] != 1 or tv[i] is not None for i in range(extra)):
                raise ValueError('could not broadcast input array')
            dv, tv = dv.reshape(dv.shape[extra:]), tv[extra:]
        if tv != sub.tg or dv.shape != sub.d.shape:
            raise ValueError('could not broadcast input array from shape into shape')
        self._write(tuple(ks), dv)

    def _write(self, ks, dv):
        nk = []
        ax = 0
        back = {}
        sub_tags = []
        for k in ks:
            if k is None:
                nk.append(None)
                continue
            g = self.tg[ax]
            if isinstance(k, (int, np.integer)) and g is not None:
                raise Unsupported('assignment to one symbolic column')
            if isinstance(k, slice):
                sub_tags.append(g)
            nk.append(k)
            ax += 1
        # canonical tags of the sub-array -> tags of self
        n = 0
        for g in reversed([g for g in sub_tags if g is not None]):
            if TAGS[n] != g:
                back[TAGS[n]] = g
            n += 1
        if back:
            dv = fmap(lambda t: tm.retag(t, back), dv)
        self.d[tuple(nk)] = dv if dv.ndim else dv[()]


def as_like(a, b):
    """value a stored into a slot that held b"""
    if b.isbool and not a.isbool:
        return as_bool(a)
    if a.isbool and not b.isbool:
        return as_real(a)
    return a


def same_mask(m, o):
    return m is o or (m.tg == o.tg and m.d.shape == o.d.shape and
                      all(x is y for x, y in zip(m.d.reshape(-1), o.d.reshape(-1))))


class Sel(SA):
    """The entries of an array selected by a boolean mask, kept aligned with the mask."""
    __slots__ = ('mask',)

    def __init__(self, d, tg, mask):
        SA.__init__(self, d, tg)
        self.mask = mask

    def _no(self, *a, **k):
        raise Unsupported('operation on a masked selection')
    __len__ = __iter__ = reshape = ravel = __getitem__ = __bool__ = transpose = _no

    @property
    def size(self):
        raise Unsupported('size of a masked selection')

    @property
    def shape(self):
        raise Unsupported('shape of a masked selection')


class IdxSet(object):
    """Result of flatnonzero: the set of positions where conds (1-d boolean SA) holds."""

    def __init__(self, conds):
        self.conds = conds

    @property
    def size(self):
        return _Count(self.conds)

    def __len__(self):
        raise Unsupported('number of selected columns')

    def any(self):
        return f_any(self.conds)


class _Count(object):
    def __init__(self, conds):
        self.conds = conds

    def __gt__(self, n):
        if n == 0:
            return bool(f_any(self.conds))
        raise Unsupported('count')

    def __eq__(self, n):
        if n == 0:
            return not bool(f_any(self.conds))
        raise Unsupported('count')

    def __bool__(self):
        return bool(f_any(self.conds))
    __hash__ = None


# --------------------------------------------------------------------------- numpy functions
TABLE = {}
LINALG = {}
METHODS = {}
UFUNC_ALIAS = {'true_divide': 'divide', 'remainder': 'mod', 'arctan2': 'arctan2', 'absolute': 'abs',
               'fabs': 'abs', 'bitwise_and': 'logical_and', 'bitwise_or': 'logical_or', 'invert': 'logical_not'}


def reg(*names, **kw):
    def deco(f):
        for n in names:
            TABLE[n] = f
            if kw.get('linalg'):
                LINALG[n] = f
        return f
    return deco


def un(name, f):
    def g(x, out=None, where=True, **k):
        if out is not None or where is not True or k:
            raise Unsupported(name + ' keyword')
        return ew(R1(f), x)
    g.__name__ = name
    TABLE[name] = g
    return g


def bi(name, f):
    def g(a, b, out=None, where=True, **k):
        if out is not None or where is not True or k:
            raise Unsupported(name + ' keyword')
        return ew(f, a, b)
    g.__name__ = name
    TABLE[name] = g
    return g


for _n, _f in [('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('sqrt', 'sqrt'), ('arcsin', 'asin'),
               ('arccos', 'acos'), ('arctan', 'atan'), ('exp', 'exp'), ('log', 'log'), ('floor', 'floor'),
               ('asin', 'asin'), ('acos', 'acos'), ('atan', 'atan'), ('cbrt', 'root3'),
               ('sinh', 'sinh'), ('cosh', 'cosh'), ('tanh', 'tanh')]:
    un(_n, (lambda f: lambda t: tm.fn(f, t))(_f))
un('abs', lambda t: tm.fn('abs', t))
TABLE['absolute'] = TABLE['fabs'] = TABLE['abs']
un('sign', lambda t: tm.fn('sign', t))
un('square', lambda t: tm.power(t, 2))
un('negative', tm.neg)
un('positive', lambda t: t)
un('deg2rad', lambda t: tm.mul(t, tm.div(tm.PI, tm.const(180))))
un('rad2deg', lambda t: tm.mul(t, tm.div(tm.const(180), tm.PI)))
TABLE['radians'], TABLE['degrees'] = TABLE['deg2rad'], TABLE['rad2deg']
un('isnan', tm.isnan)
un('isfinite', lambda t: tm.bnot(tm.isnan(t)))
un('isinf', lambda t: tm.FALSE)
un('conj', lambda t: t)
un('reciprocal', lambda t: tm.div(tm.ONE, t))
TABLE['logical_not'] = TABLE['invert'] = TABLE['bitwise_not'] = lambda x: ew(NOT, x)
TABLE['nan_to_num'] = lambda x, copy=True, nan=0.0, posinf=None, neginf=None: \
    ew(lambda t, v: tm.ite(tm.isnan(t), v, t), x, nan)
bi('add', ADD), bi('subtract', SUB), bi('multiply', MUL), bi('divide', DIV), bi('power', POW), bi('mod', MOD)
TABLE['true_divide'], TABLE['remainder'], TABLE['float_power'] = TABLE['divide'], TABLE['mod'], TABLE['power']
TABLE['pow'] = TABLE['power']
bi('floor_divide', FLOORDIV)
bi('arctan2', R2(lambda y, x: tm.fn('atan2', y, x)))
TABLE['atan2'] = TABLE['arctan2']
bi('hypot', R2(lambda x, y: tm.fn('sqrt', tm.add(tm.mul(x, x), tm.mul(y, y)))))
bi('maximum', R2(tm.maximum)), bi('minimum', R2(tm.minimum))
bi('fmax', R2(lambda a, b: tm.ite(tm.isnan(a), b, tm.ite(tm.isnan(b), a, tm.maximum(a, b)))))
bi('less', LT), bi('less_equal', LE), bi('greater', GT), bi('greater_equal', GE)
bi('equal', eq_term), bi('not_equal', ne_term)
bi('logical_and', AND), bi('logical_or', OR)
TABLE['bitwise_and'], TABLE['bitwise_or'] = TABLE['logical_and'], TABLE['logical_or']
bi('logical_xor', lambda a, b: ne_term(as_bool(a), as_bool(b)))
bi('copysign', R2(lambda a, b: tm.ite(tm.lt(b, tm.ZERO), tm.neg(tm.fn('abs', a)), tm.fn('abs', a))))


@reg('where')
def f_where(c, a=None, b=None):
    if a is None:
        return f_nonzero(c)
    return ew(lambda k, x, y: tm.ite(as_bool(k), *_same_kind(x, y)), c, a, b)


def _same_kind(x, y):
    if x.isbool == y.isbool:
        return x, y
    return as_real(x), as_real(y)


@reg('clip')
def f_clip(x, lo=None, hi=None, out=None, a_min=None, a_max=None, min=None, max=None):
    if out is not None:
        raise Unsupported('clip out')
    lo = lo if lo is not None else (a_min if a_min is not None else min)
    hi = hi if hi is not None else (a_max if a_max is not None else max)
    x = S(x)
    if lo is not None:
        x = ew(R2(tm.maximum), x, lo)
    if hi is not None:
        x = ew(R2(tm.minimum), x, hi)
    return x


def _axes(x, axis):
    if axis is None:
        return tuple(range(x.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(a % x.ndim for a in axis)
    if not -x.ndim <= axis < x.ndim:
        raise np.AxisError(axis, x.ndim)
    return (axis % x.ndim,)


def reduce_(x, axis, keepdims, fold, over):
    x = S(x)
    if isinstance(x, Sel):
        raise Unsupported('reduction of a masked selection')
    axs = _axes(x, axis)
    d, tg = x.d, list(x.tg)
    for a in sorted(axs, reverse=True):
        if tg[a] is not None:
            g = tg[a]
            d = fmap(lambda t: over(g, t), d)
            d = d[(slice(None),) * a + (0,)]
        else:
            parts = [d[(slice(None),) * a + (i,)] for i in range(d.shape[a])]
            if not parts:
                raise Unsupported('empty reduction')
            parts = [p if isinstance(p, np.ndarray) else _wrap0(p) for p in parts]
            acc = parts[0]
            for p in parts[1:]:
                acc = fmap(fold, acc, p)
            d = acc
        if not isinstance(d, np.ndarray):
            d = _wrap0(d)
        if keepdims:
            d = d.reshape(d.shape[:a] + (1,) + d.shape[a:])
            tg[a] = None
        else:
            del tg[a]
    if not isinstance(d, np.ndarray):
        d = _wrap0(d)
    return SA(d, tuple(tg))


def _wrap0(t):
    o = obj(())
    o[()] = t
    return o


def _sum_over(g, t):
    t = as_real(t)
    if g not in t.tags:
        return tm.mul(tm.var('#N'), t)
    return tm.sumover(g, t)


@reg('sum', 'nansum')
def f_sum(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if out is not None or initial is not None or where is not None:
        raise Unsupported('sum keyword')
    x = S(x)
    return reduce_(SA(fmap(as_real, x.d), x.tg), axis, keepdims, tm.add, _sum_over)


@reg('mean', 'average')
def f_mean(x, axis=None, dtype=None, out=None, keepdims=False, weights=None):
    if out is not None or weights is not None:
        raise Unsupported('mean keyword')
    x = S(x)
    s = f_sum(x, axis=axis, keepdims=keepdims)
    n = tm.ONE
    for a in _axes(x, axis):
        n = tm.mul(n, tm.var('#N') if x.tg[a] is not None else tm.const(x.d.shape[a]))
    return ew(lambda t: tm.div(t, n), s)


@reg('any')
def f_any(x, axis=None, out=None, keepdims=False):
    return reduce_(ew(as_bool, x), axis, keepdims, tm.bor, tm.exists)


@reg('all')
def f_all(x, axis=None, out=None, keepdims=False):
    return reduce_(ew(as_bool, x), axis, keepdims, tm.band, tm.forall)


@reg('prod')
def f_prod(x, axis=None, keepdims=False):
    def no(g, t):
        raise Unsupported('product over the symbolic axis')
    return reduce_(x, axis, keepdims, tm.mul, no)


@reg('max', 'amax')
def f_max(x, axis=None, out=None, keepdims=False):
    def no(g, t):
        raise Unsupported('maximum over the symbolic axis')
    return reduce_(x, axis, keepdims, tm.maximum, no)


@reg('min', 'amin')
def f_min(x, axis=None, out=None, keepdims=False):
    def no(g, t):
        raise Unsupported('minimum over the symbolic axis')
    return reduce_(x, axis, keepdims, tm.minimum, no)


@reg('count_nonzero')
def f_count(x, axis=None, keepdims=False):
    return f_sum(ew(as_bool, x), axis, keepdims=keepdims)


@reg('linalg.norm')
def f_norm(x, ord=None, axis=None, keepdims=False):
    x = S(x)
    if ord not in (None, 2):
        raise Unsupported('norm order')
    if axis is None and ord is not None and x.ndim != 1:
        raise Unsupported('matrix norm')
    if isinstance(axis, (tuple, list)) and len(axis) > 1 and ord is not None:
        raise Unsupported('matrix norm')
    s = f_sum(ew(R1(lambda t: tm.mul(t, t)), x), axis, keepdims=keepdims)
    return ew(lambda t: tm.fn('sqrt', t), s)


LINALG['norm'] = f_norm


@reg('flatnonzero')
def f_flatnonzero(x):
    x = S(x)
    sq = x.squeeze() if x.ndim > 1 else x
    if sq.ndim == 0:
        sq = sq.reshape(1)
    if sq.ndim != 1:
        sq = sq.reshape(-1)
    return IdxSet(ew(as_bool, sq))


@reg('nonzero')
def f_nonzero(x):
    x = S(x)
    if x.ndim != 1:
        if x.ndim == 2 and x.tg[0] is None and x.d.shape[0] == 1:
            return (0, IdxSet(ew(as_bool, x.reshape(-1))))
        raise Unsupported('nonzero of a matrix')
    return (IdxSet(ew(as_bool, x)),)


# -- products
@reg('cross')
def f_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = S(a), S(b)
    a, b = f_moveaxis(a, axisa, -1), f_moveaxis(b, axisb, -1)
    for q in (a, b):
        if q.tg[-1] is not None or q.d.shape[-1] != 3:
            if q.tg[-1] is None and q.d.shape[-1] == 2:
                raise Unsupported('2-vector cross product')
            raise ValueError('incompatible dimensions for cross product\n(dimension must be 2 or 3)')
    A = [a[..., i] for i in range(3)]
    B = [b[..., i] for i in range(3)]
    c = [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]]
    r = stack(c, c[0].ndim)
    return f_moveaxis(r, -1, axisc)


LINALG['cross'] = f_cross


@reg('moveaxis')
def f_moveaxis(x, src, dst):
    x = S(x)
    order = list(range(x.ndim))
    s = order.pop(src % x.ndim)
    order.insert(dst % x.ndim, s)
    return x.transpose(*order)


@reg('rollaxis')
def f_rollaxis(x, axis, start=0):
    x = S(x)
    return f_moveaxis(x, axis, start if start <= axis else start - 1)


@reg('dot')
def f_dot(a, b, out=None):
    if out is not None:
        raise Unsupported('dot out')
    a, b = S(a), S(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    kb = 0 if b.ndim == 1 else b.ndim - 2
    na, nb = a.shape[-1], b.shape[kb]
    if na != nb:
        raise ValueError('shapes not aligned')
    # bring to (rest_a, 1.., K) x (1.., rest_b, K)
    bb = f_moveaxis(b, kb, -1)
    ra, rb = a.ndim - 1, bb.ndim - 1
    aa = a[(Ellipsis,) + (None,) * rb + (slice(None),)] if rb else a
    bb = bb[(None,) * ra + (Ellipsis,)] if ra else bb
    return f_sum(aa * bb, axis=-1)


@reg('matmul')
def f_matmul(a, b):
    a, b = S(a), S(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim <= 2 and b.ndim <= 2:
        return f_dot(a, b)
    sa, sb = a.ndim == 1, b.ndim == 1
    if sa:
        a = a[None, :]
    if sb:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('matmul: dimension mismatch')
    bt = b.swapaxes(-1, -2)
    r = f_sum(a[..., :, None, :] * bt[..., None, :, :], axis=-1)
    if sa:
        r = r[..., 0, :]
    if sb:
        r = r[..., 0]
    return r


@reg('inner')
def f_inner(a, b):
    a, b = S(a), S(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return f_dot(a, f_moveaxis(b, -1, max(b.ndim - 2, 0))) if b.ndim > 1 else f_dot(a, b)


@reg('vdot')
def f_vdot(a, b):
    return f_sum(S(a).ravel() * S(b).ravel())


@reg('outer')
def f_outer(a, b):
    return S(a).ravel()[:, None] * S(b).ravel()[None, :]


@reg('trace')
def f_trace(x):
    x = S(x)
    return f_sum(stack([x[i, i] for i in range(len(x))], 0), axis=0)


@reg('einsum')
def f_einsum(spec, *ops, **kw):
    if kw.pop('optimize', None) is not None:
        pass
    if kw or not isinstance(spec, str):
        raise Unsupported('einsum form')
    spec = spec.replace(' ', '')
    ops = [S(o) for o in ops]
    if '->' in spec:
        lhs, rhs = spec.split('->')
    else:
        lhs = spec
        letters = [c for c in lhs if c.isalpha()]
        rhs = ('...' if '...' in lhs else '') + ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = lhs.split(',')
    if len(ins) != len(ops):
        raise ValueError('einsum operands')
    ne = 0
    parsed = []
    for s, o in zip(ins, ops):
        if '...' in s:
            pre, post = s.split('...')
            k = o.ndim - len(pre) - len(post)
            if k < 0:
                raise ValueError('einsum: operand has too few dimensions')
            ne = max(ne, k)
            parsed.append((list(pre), k, list(post)))
        else:
            if len(s) != o.ndim:
                raise ValueError('einsum: operand dimension mismatch')
            parsed.append((list(s), 0, []))
    ell = ['.%d' % i for i in range(ne)]
    labels = []
    opl = []
    for pre, k, post in parsed:
        ls = pre + ell[ne - k:] + post
        if len(set(ls)) != len(ls):
            raise Unsupported('einsum diagonal')
        opl.append(ls)
        for l in ls:
            if l not in labels:
                labels.append(l)
    if '...' in rhs:
        pre, post = rhs.split('...')
        out = list(pre) + ell + list(post)
    else:
        if ne:
            raise Unsupported('einsum ellipsis sum')
        out = list(rhs)
    order = out + [l for l in labels if l not in out]
    prod = None
    sizes = {}
    for ls, o in zip(opl, ops):
        for l, s in zip(ls, o.shape):
            if l in sizes and l[0] != '.':
                if sizes[l] != s and not (sizes[l] == 1 or s == 1):
                    raise ValueError('einsum: dimension mismatch')
            sizes.setdefault(l, s)
        perm = sorted(range(len(ls)), key=lambda i: order.index(ls[i]))
        t = o.transpose(*perm) if len(ls) > 1 else o
        present = [ls[i] for i in perm]
        key = tuple(slice(None) if l in present else None for l in order)
        t = t[key] if key else t
        prod = t if prod is None else prod * t
    nsum = len(order) - len(out)
    if nsum:
        prod = f_sum(prod, axis=tuple(range(len(out), len(order))))
    return prod


# -- shape functions
@reg('vstack', 'row_stack')
def f_vstack(items, **kw):
    if kw:
        raise Unsupported('vstack keyword')
    return concat([f_atleast_2d(i) for i in _seq(items)], 0)


@reg('hstack')
def f_hstack(items, **kw):
    arrs = [f_atleast_1d(i) for i in _seq(items)]
    return concat(arrs, 0 if arrs[0].ndim == 1 else 1)


@reg('dstack')
def f_dstack(items):
    return concat([f_atleast_3d(i) for i in _seq(items)], 2)


@reg('column_stack')
def f_column_stack(items):
    arrs = [S(i) for i in _seq(items)]
    return concat([a if a.ndim > 1 else a.reshape(-1, 1) for a in arrs], 1)


@reg('concatenate')
def f_concatenate(items, axis=0, **kw):
    if kw:
        raise Unsupported('concatenate keyword')
    if axis is None:
        return concat([S(i).ravel() for i in _seq(items)], 0)
    return concat(_seq(items), axis)


@reg('stack')
def f_stack(items, axis=0, **kw):
    return stack([S(i) for i in _seq(items)], axis)


def _seq(items):
    if isinstance(items, SA):
        return list(items)
    return list(items)


def _multi(f):
    def g(*xs):
        r = [f(S(x)) for x in xs]
        return r[0] if len(r) == 1 else r
    return g


f_atleast_1d = TABLE['atleast_1d'] = _multi(lambda x: x if x.ndim >= 1 else x.reshape(1))
f_atleast_2d = TABLE['atleast_2d'] = _multi(lambda x: x if x.ndim >= 2 else (x.reshape(1, 1) if x.ndim == 0
                                                                             else x[None, :]))
f_atleast_3d = TABLE['atleast_3d'] = _multi(lambda x: x if x.ndim >= 3 else (
    x.reshape(1, 1, 1) if x.ndim == 0 else (x[None, :, None] if x.ndim == 1 else x[:, :, None])))


@reg('broadcast_arrays')
def f_broadcast_arrays(*xs, **kw):
    ds, tg = bcast(xs)
    return [SA(d.copy(), tg) for d in ds]


@reg('broadcast_to')
def f_broadcast_to(x, shape, **kw):
    if isinstance(shape, (int, SymDim)):
        shape = (shape,)
    d = obj([1 if isinstance(s, SymDim) else int(s) for s in shape])
    if d.ndim == 0:
        d[()] = tm.ZERO
    else:
        d[...] = tm.ZERO
    ref = SA(d, tuple('#%d' % i if isinstance(s, SymDim) else None for i, s in enumerate(shape)))
    ds, tg = bcast([x, ref])
    r = SA(ds[0].copy(), tg)
    if r.shape != ref.shape:
        raise ValueError('operands could not be broadcast together with remapped shapes')
    return r


for _name in ('reshape', 'ravel', 'squeeze', 'swapaxes', 'transpose', 'copy'):
    TABLE[_name] = (lambda n: lambda x, *a, **k: getattr(S(x), n)(*a, **k))(_name)


def f_transpose(x, axes=None):
    x = S(x)
    return x.transpose(*(axes or ()))


TABLE['transpose'] = f_transpose


def f_reshape(x, shape=None, newshape=None, order='C', **kw):
    s = shape if shape is not None else newshape
    return S(x).reshape(*(s if isinstance(s, (tuple, list)) else (s,)))


TABLE['reshape'] = f_reshape
TABLE['ndim'] = lambda x: S(x).ndim
TABLE['shape'] = lambda x: S(x).shape
TABLE['size'] = lambda x, axis=None: S(x).size if axis is None else S(x).shape[axis]


@reg('expand_dims')
def f_expand_dims(x, axis):
    x = S(x)
    axis = axis % (x.ndim + 1)
    return x[(slice(None),) * axis + (None,)]


@reg('array', 'asarray', 'asfarray', 'asanyarray', 'ascontiguousarray', 'array_copy')
def f_array(x, dtype=None, copy=None, **kw):
    r = S(x)
    if kw.get('ndmin'):
        while r.ndim < kw['ndmin']:
            r = r[None]
    if dtype is not None:
        return r.astype(dtype)
    return r


def _arr_copy(x, dtype=None, copy=True, **kw):
    r = f_array(x, dtype, **kw)
    return r.copy() if r is x or isinstance(x, SA) else r


TABLE['array'] = _arr_copy


def _filled(shape, v):
    if isinstance(shape, (int, np.integer, SymDim)):
        shape = (shape,)
    shape = tuple(shape)
    d = obj([1 if isinstance(s, SymDim) else int(s) for s in shape])
    t = to_term(v) if not isinstance(v, SA) else v.scalar_term()
    if d.ndim == 0:
        d[()] = t
    else:
        d[...] = t
    return SA(d, tuple('#%d' % i if isinstance(s, SymDim) else None for i, s in enumerate(shape)))


TABLE['zeros'] = lambda shape, dtype=float, **k: _filled(shape, False if np.dtype(dtype) == bool else 0)
TABLE['ones'] = lambda shape, dtype=float, **k: _filled(shape, True if np.dtype(dtype) == bool else 1)
TABLE['full'] = lambda shape, v, dtype=None, **k: _filled(shape, v) if not (isinstance(v, SA) and v.ndim) \
    else f_broadcast_to(v, shape)
TABLE['empty'] = lambda shape, dtype=float, **k: _filled(shape, float('nan'))
TABLE['zeros_like'] = lambda x, **k: _filled(S(x).shape, 0)
TABLE['ones_like'] = lambda x, **k: _filled(S(x).shape, 1)
TABLE['empty_like'] = lambda x, **k: _filled(S(x).shape, float('nan'))
TABLE['full_like'] = lambda x, v, **k: _filled(S(x).shape, v)


@reg('diag')
def f_diag(x):
    x = S(x)
    n = len(x)
    r = _filled((n, n), 0)
    for i in range(n):
        r.d[i, i] = x.d[i]
    return r


@reg('flip')
def f_flip(x, axis=None):
    x = S(x)
    axs = _axes(x, axis)
    if any(x.tg[a] is not None for a in axs):
        raise Unsupported('flip of the symbolic axis')
    return x[tuple(slice(None, None, -1) if a in axs else slice(None) for a in range(x.ndim))]


@reg('take')
def f_take(x, idx, axis=None):
    x = S(x)
    if axis is None:
        x, axis = x.ravel(), 0
    return x[(slice(None),) * (axis % x.ndim) + (idx,)]


@reg('isclose')
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y, r, t):
        x, y, r, t = map(as_real, (x, y, r, t))
        c = tm.le(tm.fn('abs', tm.sub(x, y)), tm.add(t, tm.mul(r, tm.fn('abs', y))))
        if equal_nan:
            c = tm.bor(c, tm.band(tm.isnan(x), tm.isnan(y)))
        return c
    return ew(f, a, b, rtol, atol)


@reg('allclose')
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return f_all(f_isclose(a, b, rtol, atol, equal_nan))


@reg('array_equal')
def f_array_equal(a, b, equal_nan=False):
    a, b = S(a), S(b)
    if a.shape != b.shape:
        return False
    return f_all(a == b)


@reg('linalg.det')
def f_det(m):
    m = S(m)
    if m.ndim != 2 or m.d.shape != (3, 3):
        raise Unsupported('determinant')
    return f_dot(m[0], f_cross(m[1], m[2]))


LINALG['det'] = f_det


@reg('diff')
def f_diff(x, n=1, axis=-1):
    x = S(x)
    axis = axis % x.ndim
    if n != 1 or x.tg[axis] is not None:
        raise Unsupported('diff')
    p = (slice(None),) * axis
    return x[p + (slice(1, None),)] - x[p + (slice(None, -1),)]


for _name in ('sum', 'mean', 'any', 'all', 'max', 'min', 'prod', 'clip', 'dot', 'take', 'trace', 'nonzero'):
    METHODS[_name] = TABLE[_name]
METHODS['conj'] = TABLE['conj']
METHODS['ptp'] = lambda x, **k: (_ for _ in ()).throw(Unsupported('ptp'))
METHODS['__array_wrap__'] = None


# --------------------------------------------------------------------------- shim modules
def has_sym(x, depth=3):
    if isinstance(x, (SA, IdxSet)):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(e, depth - 1) for e in x)
    if depth and isinstance(x, dict):
        return any(has_sym(e, depth - 1) for e in x.values())
    return False


CREATORS = {'zeros', 'ones', 'full', 'empty', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'array',
            'broadcast_to'}
PI = SA(_wrap0(tm.PI), ())


class ShimFn(object):
    def __init__(self, name, real, ours):
        self.name, self.real, self.ours = name, real, ours
        self.__name__ = name

    def __call__(self, *a, **k):
        if self.ours is not None and (self.name in CREATORS or has_sym(a) or has_sym(k)):
            try:
                return self.ours(*a, **k)
            except Unsupported:
                if has_sym(a) or has_sym(k):
                    raise
        if has_sym(a) or has_sym(k):
            raise Unsupported('numpy function ' + self.name)
        return self.real(*a, **k)

    def __getattr__(self, n):
        if n == 'reduce':
            def red(x, axis=0, **k):
                f = {'add': f_sum, 'multiply': f_prod, 'logical_or': f_any, 'logical_and': f_all,
                     'maximum': f_max, 'minimum': f_min}.get(self.name)
                if f is None:
                    raise Unsupported(self.name + '.reduce')
                return f(x, axis=axis, **k)
            return red
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.real, n)


class _NdarrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, SA))


class ndarray_shim(metaclass=_NdarrayMeta):
    pass


class ShimModule(types.ModuleType):
    def __init__(self, real, table, consts):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table
        self.__dict__['_consts'] = consts
        self.__dict__['_cache'] = {}

    def __getattr__(self, n):
        c = self._consts
        if n in c:
            return c[n]
        k = self._cache
        if n in k:
            return k[n]
        real = getattr(self._real, n)
        if isinstance(real, type) or not callable(real):
            return real
        k[n] = ShimFn(n, real, self._table.get(n))
        return k[n]


np_linalg = ShimModule(np.linalg, LINALG, {})
np_shim = ShimModule(np, TABLE, {'pi': PI, 'linalg': np_linalg, 'ndarray': ndarray_shim})
math_shim = ShimModule(math, {k: TABLE[k] for k in ('sin', 'cos', 'tan', 'sqrt', 'asin', 'acos', 'atan', 'atan2',
                                                    'exp', 'log', 'hypot', 'fabs', 'degrees', 'radians',
                                                    'copysign', 'isnan', 'isfinite', 'pow', 'floor')}, {'pi': PI})


def shim_len(x):
    return len(x)


def shim_float(x=0.0):
    if isinstance(x, SA):
        if x._has_n() or x.d.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return SA(_wrap0(as_real(x.scalar_term())), ())
    return float(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, *a):
        return shim_float(*a)


class float_shim(metaclass=_FloatMeta):
    fromhex = float.fromhex


def shim_max(*a, **k):
    if has_sym(a) and len(a) == 2 and not k and all(not isinstance(x, SA) or (x.d.size == 1 and not x._has_n())
                                                     for x in a):
        return ew(R2(lambda x, y: tm.ite(tm.lt(x, y), y, x)), *a)
    return max(*a, **k)


def shim_min(*a, **k):
    if has_sym(a) and len(a) == 2 and not k and all(not isinstance(x, SA) or (x.d.size == 1 and not x._has_n())
                                                     for x in a):
        return ew(R2(lambda x, y: tm.ite(tm.lt(y, x), y, x)), *a)
    return min(*a, **k)


def shim_isinstance(x, cls):
    if isinstance(x, SA):
        cl = cls if isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cl:
            flat += list(c) if isinstance(c, tuple) else [c]
        if any(c in (np.ndarray, ndarray_shim) for c in flat):
            return True
        if any(c in (float, float_shim, np.float64, np.floating, int, np.integer, complex) or
               getattr(c, '__module__', '') == 'numbers' for c in flat):
            if x.ndim == 0:
                raise Unsupported('isinstance of a symbolic scalar with a number type')
            return False
        if any(c in (list, tuple, str, dict, set, bool) for c in flat):
            return isinstance(x, tuple(c for c in flat if isinstance(c, type)))
    return isinstance(x, cls)


OVERRIDES = {'float': float_shim, 'max': shim_max, 'min': shim_min, 'isinstance': shim_isinstance}


def shim_value(name, v):
    """The shim replacement of a module global, or None."""
    if v is np:
        return np_shim
    if v is np.linalg:
        return np_linalg
    if v is math:
        return math_shim
    if isinstance(v, type) and v is np.ndarray:
        return ndarray_shim
    if v is np.pi and name == 'pi':
        return PI
    nm = getattr(v, '__name__', None)
    if nm and callable(v) and not isinstance(v, type):
        if getattr(np, nm, None) is v:
            return getattr(np_shim, nm)
        if getattr(np.linalg, nm, None) is v:
            return getattr(np_linalg, nm)
        if getattr(math, nm, None) is v:
            return getattr(math_shim, nm)
    return None


class Patched(object):
    """Context: nvector's module globals see the shim (and the given stubs)."""

    def __init__(self, stubs=None):
        self.stubs = stubs or {}

    def __enter__(self):
        self.saved = []
        for mn, mod in sorted(sys.modules.items()):
            if mod is None or not (mn == 'nvector' or mn.startswith('nvector.')) or '.tests' in mn:
                continue
            g = mod.__dict__
            for name in list(g):
                if name.startswith('__'):
                    continue
                v = g[name]
                new = None
                try:
                    if callable(v) and id(v) in self.stubs:
                        new = self.stubs[id(v)]
                    else:
                        new = shim_value(name, v)
                except Exception:
                    new = None
                if new is not None:
                    self.saved.append((g, name, v, True))
                    g[name] = new
            for name, f in OVERRIDES.items():
                if name not in g:
                    self.saved.append((g, name, None, False))
                    g[name] = f
        return self

    def __exit__(self, *a):
        for g, name, v, had in reversed(self.saved):
            if had:
                g[name] = v
            else:
                g.pop(name, None)


# --------------------------------------------------------------------------- input builders
def sym_array(name, shape, N):
    """Array of fresh variables; a dimension 'N' is symbolic if N == 'N', else concrete N."""
    dims = [(1 if N == 'N' else N) if s == 'N' else s for s in shape]
    tg = ['#%d' % i if (s == 'N' and N == 'N') else None for i, s in enumerate(shape)]
    d = obj(dims)
    ncol = [i for i, s in enumerate(shape) if s == 'N']
    it = np.ndindex(*dims) if dims else [()]
    for idx in it:
        comp = tuple(i for k, i in enumerate(idx) if shape[k] != 'N')
        cols = tuple(('#%d' % k if N == 'N' else idx[k]) for k in ncol)
        nm = name + ''.join('.%d' % c for c in comp)
        d[idx] = tm.var(nm, *cols)
    return SA(d, tuple(tg))
