"""Hash-consed term DAG over the reals (plus booleans) used by the VC generator."""
from fractions import Fraction
import mpmath

_TABLE = {}
_COUNT = [0]


class T(object):
    """A term.  op in:
    reals: const(Fraction) pi nan var add mul div pow(int) fn ite sum
    bools: true false lt le eq not and or bite bvar ex(ists over a column tag)
    """
    __slots__ = ('op', 'args', 'val', 'id', 'hn', 'tags', '__weakref__')

    def __repr__(self):
        return show(self)

    @property
    def isbool(self):
        return self.op in _BOOL


_BOOL = frozenset('true false lt le eq not and or bite bvar ex'.split())


def _mk(op, args=(), val=None):
    key = (op, tuple(a.id for a in args), val)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.val = op, tuple(args), val
        _COUNT[0] += 1
        t.id = _COUNT[0]
        if op == 'nan':
            t.hn = True
        elif op in ('sum', 'ex'):
            t.hn = args[0].hn
        else:
            t.hn = any(a.hn for a in args if not a.isbool)
        tg = set()
        for a in args:
            tg |= a.tags
        if op in ('var', 'bvar'):
            tg |= set(x for x in val[1] if isinstance(x, str))
        if op in ('sum', 'ex'):
            tg = tg - {val}
        t.tags = frozenset(tg)
        _TABLE[key] = t
    return t


def const(x):
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            raise ValueError('infinity is outside the real-number semantics')
    return _mk('const', (), Fraction(x))


NAN = _mk('nan')
PI = _mk('pi')
TRUE = _mk('true')
FALSE = _mk('false')
ZERO = const(0)
ONE = const(1)


VARS = {}


def var(name, *tags):
    t = _mk('var', (), (name, tuple(tags)))
    VARS[t.id] = t
    return t


def col_key(t):
    """environment key of a variable (a generic tag means its default column)"""
    name, tags = t.val
    return name, tuple(TAGCOL.get(g, 0) if isinstance(g, str) else g for g in tags)


def bvar(name, *tags):
    return _mk('bvar', (), (name, tuple(tags)))


def is_const(t, v=None):
    return t.op == 'const' and (v is None or t.val == v)


def add(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if a.op == 'const' and b.op == 'const':
        return const(a.val + b.val)
    if is_const(a, 0):
        return b
    if is_const(b, 0):
        return a
    # absorption: adding a denormal-range constant to a float (x + _TINY)
    for x, c in ((a, b), (b, a)):
        if c.op == 'const' and abs(c.val) < TINY_LIMIT:
            return ite(eq(x, ZERO), c, x)
    return _mk('add', (a, b))


TINY_LIMIT = Fraction(1, 10 ** 290)


def mul(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if a.op == 'const' and b.op == 'const':
        return const(a.val * b.val)
    for x, c in ((a, b), (b, a)):
        if c.op == 'const':
            if c.val == 1:
                return x
            if c.val == 0 and not x.hn:
                return ZERO
    return _mk('mul', (a, b))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if a is b and not a.hn:
        return ZERO
    return add(a, neg(b))


def div(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if b.op == 'const':
        if b.val == 0:
            return NAN
        return mul(a, const(1 / b.val))
    return _mk('div', (a, b))


def power(a, n):
    n = int(n)
    if n == 0 and not a.hn:
        return ONE
    if n == 1:
        return a
    if a.op == 'nan':
        return NAN
    if a.op == 'const':
        if a.val == 0 and n < 0:
            return NAN
        return const(a.val ** n)
    if n < 0:
        return div(ONE, power(a, -n))
    return _mk('pow', (a,), n)


def fn(name, *args):
    if any(a.op == 'nan' for a in args):
        return NAN
    if name == 'sqrt' and args[0].op == 'const':
        v = args[0].val
        if v < 0:
            return NAN
        import math
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return const(Fraction(n, d))
    if args and all(is_const(a, 0) for a in args):
        if name in ('sin', 'asin', 'atan', 'atan2', 'tan'):
            return ZERO
        if name == 'cos':
            return ONE
    if name == 'atan2' and args[0].op == 'const' and args[1].op == 'const':
        y, x = args[0].val, args[1].val
        if y == 0 and x > 0:
            return ZERO
        if y == 0 and x < 0:
            return PI
    if name == 'mod' and is_const(args[0], 0) and positive_const(args[1]):
        return ZERO
    if name == 'mod' and args[0].op in ('add', 'pi') and not args[0].hn and twice_pi(args[1]):
        # mod(d + pi, 2 pi) of a difference d: in terms of mod(d, 2 pi), as the functions of angles written without pi have it
        d = without_pi(args[0])
        if d is ZERO:
            return PI
        if d is not None and d.op == 'add' and d.args[0].op == 'var' and d.args[1].op == 'mul' and \
                is_const(d.args[1].args[0], -1) and d.args[1].args[1].op == 'var':
            r = fn('mod', d, args[1])
            return ite(lt(r, PI), add(r, PI), sub(r, PI))
    if name == 'mod' and args[0].op == 'add' and not args[0].hn and positive_const(args[1]):
        # mod(b - a, P) is 0 or P - mod(a - b, P): one of the two is the canonical one
        p, q = args[0].args
        if q.op == 'mul' and is_const(q.args[0], -1) and q.args[1].op == 'var' and p.op == 'var' and \
                show(q.args[1], 5) < show(p, 5):
            r = fn('mod', add(q.args[1], neg(p)), args[1])
            return ite(eq(r, ZERO), ZERO, sub(args[1], r))
    if name == 'asin' and args[0].op == 'const' and abs(args[0].val) == 1:
        return mul(const(args[0].val / 2), PI)
    if name == 'sign':
        x = args[0]
        return ite(lt(x, ZERO), const(-1), ite(eq(x, ZERO), ZERO, ONE)) if not x.hn else \
            ite(isnan(x), NAN, ite(lt(x, ZERO), const(-1), ite(eq(x, ZERO), ZERO, ONE)))
    if name == 'abs':
        x = args[0]
        if x.op == 'const':
            return const(abs(x.val))
        if x.op == 'fn' and x.val == 'sqrt':
            return x
        if x.op == 'add' and not x.hn:
            # |a - b| and |b - a| are the same term
            p, q = x.args
            if q.op == 'mul' and is_const(q.args[0], -1) and q.args[1].op != 'const' and show(q.args[1], 5) < show(p, 5):
                args = (add(q.args[1], neg(p)),)
        return _mk('fn', args, 'abs')
    return _mk('fn', args, name)


def positive_const(t):
    """a positive number or multiple of pi"""
    return t.op == 'pi' or (t.op == 'const' and t.val > 0) or (t.op == 'mul' and all(positive_const(a) for a in t.args))


def twice_pi(t):
    return t.op == 'mul' and is_const(t.args[0], 2) and t.args[1] is PI


def without_pi(t):
    """d if t is d + pi or d - pi, else None"""
    if t.op == 'pi':
        return ZERO
    if t.op == 'add':
        for i in (0, 1):
            if t.args[i] is PI or (t.args[i].op == 'mul' and is_const(t.args[i].args[0], -1) and t.args[i].args[1] is PI):
                return t.args[1 - i]
    return None


def maximum(a, b):
    if a is b:
        return a
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if a.op == b.op == 'fn' and a.val == b.val == 'abs' and show(b, 5) < show(a, 5):
        a, b = b, a
    r = ite(lt(a, b), b, a)
    if a.hn or b.hn:
        r = ite(bor(isnan(a), isnan(b)), NAN, r)
    return r


def minimum(a, b):
    return neg(maximum(neg(a), neg(b)))


def ite(c, a, b):
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a is b:
        return a
    if a.isbool or b.isbool:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        if a is c:
            a = TRUE
        if b is c:
            b = FALSE
        if a is b:
            return a
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        return _mk('bite', (c, a, b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return _mk('ite', (c, a, b))


BOUND = '$0'     # bound column index; never the name of a free index


def bind(tag, body):
    return body if tag == BOUND else retag(body, {tag: BOUND})


def sumover(tag, body):
    if tag not in body.tags:
        raise ValueError('sum of a column-independent term over the symbolic columns')
    return _mk('sum', (bind(tag, body),), BOUND)


def exists(tag, body):
    if tag not in body.tags:
        return body
    return _mk('ex', (bind(tag, body),), BOUND)


def forall(tag, body):
    return bnot(exists(tag, bnot(body)))


# ---------------------------------------------------------------- booleans
def _cmp(op, a, b):
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    if a.op == 'const' and b.op == 'const':
        r = {'lt': a.val < b.val, 'le': a.val <= b.val, 'eq': a.val == b.val}[op]
        return TRUE if r else FALSE
    if a is b and not a.hn:
        return FALSE if op == 'lt' else TRUE
    if op != 'eq' and a.op != 'const' and positive_const(a) and b.op == 'const' and b.val <= 0:
        return FALSE
    if op != 'eq' and b.op != 'const' and positive_const(b) and a.op == 'const' and a.val <= 0:
        return TRUE
    if op == 'le' and a.op == 'const' and a.val == 0 and nonneg(b) and total(b):
        return TRUE
    if op == 'lt' and b.op == 'const' and b.val == 0 and nonneg(a) and total(a):
        return FALSE
    if op == 'eq' and a.id > b.id:
        a, b = b, a
    t = _mk(op, (a, b))
    if a.hn or b.hn:
        return band(bnot(bor(isnan(a), isnan(b))), t)
    return t


def lt(a, b):
    return _cmp('lt', a, b)


def le(a, b):
    return _cmp('le', a, b)


def eq(a, b):
    return _cmp('eq', a, b)


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,))


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if a is bnot(b):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk('and', (a, b))


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


_ISNAN = {}


def isnan(t):
    if t.isbool or not t.hn:
        return FALSE
    r = _ISNAN.get(t.id)
    if r is None:
        if t.op == 'nan':
            r = TRUE
        elif t.op == 'ite':
            r = ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
        elif t.op == 'sum':
            r = exists(t.val, isnan(t.args[0]))
        else:
            r = FALSE
            for a in t.args:
                r = bor(r, isnan(a))
        _ISNAN[t.id] = r
    return r


_NN = {}


def nonneg(t):
    """Manifestly >= 0 wherever defined (sums of squares, square roots, ...)."""
    r = _NN.get(t.id)
    if r is None:
        op, a = t.op, t.args
        if op == 'const':
            r = t.val >= 0
        elif op == 'pi':
            r = True
        elif op in ('add', 'div'):
            r = nonneg(a[0]) and nonneg(a[1])
        elif op == 'mul':
            r = a[0] is a[1] or (nonneg(a[0]) and nonneg(a[1]))
        elif op == 'pow':
            r = t.val % 2 == 0 or nonneg(a[0])
        elif op == 'fn':
            r = t.val in ('sqrt', 'abs', 'acos') or t.val.startswith('root')
        elif op == 'ite':
            r = nonneg(a[1]) and nonneg(a[2])
        elif op == 'sum':
            r = nonneg(a[0])
        else:
            r = False
        _NN[t.id] = r
    return r


_TOT = {}


def total(t):
    """Defined for all values of its variables."""
    r = _TOT.get(t.id)
    if r is None:
        r = not t.hn and (t.op in ('const', 'pi', 'var', 'add', 'mul', 'ite', 'lt', 'le', 'eq', 'not', 'and', 'bite') or
                          (t.op == 'pow' and t.val > 0) or (t.op == 'fn' and (
                              t.val in ('abs', 'sin', 'cos') or t.val.startswith('uf:') or
                              (t.val == 'mod' and positive_const(t.args[1])))))
        r = _TOT[t.id] = r and all(total(a) for a in t.args)
    return r


# ---------------------------------------------------------------- substitution
def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'div':
        return div(*args)
    if op == 'pow':
        return power(args[0], t.val)
    if op == 'fn':
        return fn(t.val, *args)
    if op in ('ite', 'bite'):
        return ite(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'not':
        return bnot(*args)
    if op == 'and':
        return band(*args)
    if op == 'sum':
        return sumover(t.val, args[0])
    if op == 'ex':
        return exists(t.val, args[0])
    return t


def subst(t, mapping, memo=None):
    """Replace subterms (mapping: term id -> term)."""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.id in mapping:
            memo[x.id] = mapping[x.id]
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if not x.args:
            memo[x.id] = x
        else:
            new = [memo[a.id] for a in x.args]
            memo[x.id] = x if all(n is o for n, o in zip(new, x.args)) else rebuild(x, new)
    return memo[t.id]


_RT = {}


def retag(t, mapping):
    """Simultaneously rename free column tags."""
    mapping = {k: v for k, v in mapping.items() if k in t.tags and k != v}
    if not mapping:
        return t
    mk = tuple(sorted(mapping.items(), key=str))
    key = (t.id, mk)
    r = _RT.get(key)
    if r is None:
        if t.op in ('var', 'bvar'):
            name, tags = t.val
            r = _mk(t.op, (), (name, tuple(mapping.get(x, x) for x in tags)))
        elif t.op in ('sum', 'ex'):
            m2 = {k: v for k, v in mapping.items() if k != t.val}
            if t.val in m2.values():
                fresh = t.val + "'"
                body = retag(t.args[0], {t.val: fresh})
                r = _mk(t.op, (retag(body, m2),), fresh)
            else:
                r = _mk(t.op, (retag(t.args[0], m2),), t.val)
        else:
            r = rebuild(t, [retag(a, mapping) for a in t.args])
        _RT[key] = r
    return r


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if depth < 0:
        return '..'
    d = depth - 1
    s = lambda x: show(x, d)
    op = t.op
    if op == 'const':
        return str(t.val) if t.val.denominator < 10 ** 6 else repr(float(t.val))
    if op in ('pi', 'nan', 'true', 'false'):
        return op
    if op in ('var', 'bvar'):
        return t.val[0] + (('@' + ','.join(map(str, t.val[1]))) if t.val[1] else '')
    if op == 'add':
        return '({} + {})'.format(*map(s, t.args))
    if op == 'mul':
        return '{}*{}'.format(*map(s, t.args))
    if op == 'div':
        return '({}/{})'.format(*map(s, t.args))
    if op == 'pow':
        return '{}^{}'.format(s(t.args[0]), t.val)
    if op == 'fn':
        return '{}({})'.format(t.val, ', '.join(map(s, t.args)))
    if op in ('sum', 'ex'):
        return '{}_{}({})'.format(op, t.val, s(t.args[0]))
    return '{}({})'.format(op, ', '.join(map(s, t.args)))


# ---------------------------------------------------------------- evaluation
class Undefined(Exception):
    pass


def evaluate(t, env, memo=None, ufs=None):
    """Evaluate with mpmath at the current precision.  env: (name, tags) -> mpf, or callable.

    NaN is represented by mpmath.nan.  Division by zero yields NaN.
    """
    if memo is None:
        memo = {}
    mp = mpmath.mp
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.op in ('ite', 'bite'):
            c = x.args[0]
            if c.id not in memo:
                stack.append(c)
                continue
            br = x.args[1] if memo[c.id] else x.args[2]
            if br.id not in memo:
                stack.append(br)
                continue
            memo[x.id] = memo[br.id]
            stack.pop()
            continue
        if x.op in ('sum', 'ex'):
            m = env['#columns']
            vals = [evaluate(retag(x.args[0], {x.val: i}), env, None, ufs) for i in range(m)]
            memo[x.id] = mpmath.fsum(vals) if x.op == 'sum' else any(vals)
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        memo[x.id] = _ev(x, [memo[a.id] for a in x.args], env, ufs)
    return memo[t.id]


def _ev(x, v, env, ufs):
    op = x.op
    mp = mpmath.mp
    if op == 'const':
        return mpmath.mpf(x.val.numerator) / x.val.denominator
    if op == 'pi':
        return +mp.pi
    if op == 'nan':
        return mpmath.nan
    if op in ('var', 'bvar'):
        name, tags = x.val
        key = (name, tags)
        if key in env:
            return env[key]
        # a generic tag means column 0
        tags0 = tuple(TAGCOL.get(g, 0) if isinstance(g, str) else g for g in tags)
        return env[(name, tags0)]
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'add':
        return v[0] + v[1]
    if op == 'mul':
        return v[0] * v[1]
    if op == 'div':
        if v[1] == 0:
            return mpmath.nan
        return v[0] / v[1]
    if op == 'pow':
        return v[0] ** x.val
    if op == 'lt':
        return bool(v[0] < v[1])
    if op == 'le':
        return bool(v[0] <= v[1])
    if op == 'eq':
        if v[0] == v[1]:
            return True
        return bool(abs(v[0] - v[1]) <= EQTOL * (1 + abs(v[0]) + abs(v[1])))
    if op == 'not':
        return not v[0]
    if op == 'and':
        return v[0] and v[1]
    if op == 'fn':
        return _evfn(x.val, v, ufs)
    raise ValueError(op)


EQTOL = mpmath.mpf(10) ** -26
TAGCOL = {'j': 0, 'k': 1, 'l': 2}


def _evfn(name, v, ufs):
    mp = mpmath.mp
    if any(mpmath.isnan(a) for a in v):
        return mpmath.nan
    if name == 'sqrt':
        if v[0] < 0:
            if v[0] > -mpmath.mpf(10) ** (-mp.dps + 8):
                return mpmath.mpf(0)
            return mpmath.nan
        return mpmath.sqrt(v[0])
    if name == 'sin':
        return mpmath.sin(v[0])
    if name == 'cos':
        return mpmath.cos(v[0])
    if name == 'tan':
        return mpmath.tan(v[0])
    if name == 'atan2':
        return mpmath.atan2(v[0], v[1])
    if name in ('asin', 'acos'):
        y = v[0]
        if abs(y) > 1:
            if abs(y) > 1 + mpmath.mpf(10) ** (-mp.dps + 8):
                return mpmath.nan
            y = mpmath.sign(y)
        return getattr(mpmath, name)(y)
    if name == 'atan':
        return mpmath.atan(v[0])
    if name == 'abs':
        return abs(v[0])
    if name == 'mod':
        return v[0] - v[1] * mpmath.floor(v[0] / v[1])
    if name == 'floor':
        return mpmath.floor(v[0])
    if name.startswith('root'):
        n = int(name[4:])
        if v[0] < 0:
            return mpmath.nan
        return mpmath.root(v[0], n)
    if name in ('exp', 'log', 'sinh', 'cosh', 'tanh'):
        return getattr(mpmath, name)(v[0])
    if ufs and name in ufs:
        return ufs[name](*v)
    if name in UF_IMPL:
        return UF_IMPL[name](*v)
    if name.startswith('uf:'):
        return hashval(name, v)
    raise Undefined(name)


UF_IMPL = {}


def hashval(name, vals):
    """A deterministic pseudo-random smooth value for an uninterpreted function."""
    h = sum(ord(ch) * (i + 1) for i, ch in enumerate(name)) % 97
    s = mpmath.mpf(h + 1) / 7
    for i, v in enumerate(vals):
        s += mpmath.sin(v / (1 + abs(v)) * (i + 2) + h) * (i + 1)
    return s
