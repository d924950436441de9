"""Normal form of terms up to the commutative, associative and sign laws (linear in the size of the term).

Two terms with the same normal form are equal wherever they are defined.  Products are not expanded; sums are
flattened and scaled to a leading coefficient of one, so that x - y and -(y - x) share their normal form.
A normal form is (coefficient, key); the value is coefficient * [key].
"""
from fractions import Fraction
from . import term as tm

_IDS = {}        # structural key -> number
_STRUCT = []     # number -> structural key
_MEMO = {}


def _key(*s):
    r = _IDS.get(s)
    if r is None:
        r = _IDS[s] = len(_STRUCT)
        _STRUCT.append(s)
    return r


ONE_K = _key('1')
NAN_K = _key('nan')
ODD = ('sin', 'tan', 'asin', 'atan')
EVEN = ('cos', 'abs')


def real(t):
    """normal form of a real term"""
    r = _MEMO.get(t.id)
    if r is None:
        stack = [t]
        while stack:                       # children first (deep terms)
            u = stack[-1]
            todo = [a for a in u.args if a.id not in _MEMO]
            if todo:
                stack.extend(todo)
            else:
                stack.pop()
                if u.id not in _MEMO:
                    _MEMO[u.id] = _bool(u) if u.isbool else _real(u)
        r = _MEMO[t.id]
    return r


def _sum(parts):
    """normal form of a sum of (coefficient, key)"""
    acc = {}
    for c, k in parts:
        if c == 0:
            continue
        s = _STRUCT[k]
        if s[0] == 'sum':
            for q, d in s[1]:
                acc[q] = acc.get(q, 0) + c * d
        else:
            acc[k] = acc.get(k, 0) + c
    acc = {k: c for k, c in acc.items() if c}
    if not acc:
        return (Fraction(0), ONE_K)
    if len(acc) == 1:
        (k, c), = acc.items()
        return (Fraction(c), k)
    ks = sorted(acc)
    # the constant part never leads
    lead = acc[next((k for k in ks if k != ONE_K), ks[0])]
    return (Fraction(lead), _key('sum', tuple((k, acc[k] / Fraction(lead)) for k in ks)))


def _prod(parts):
    """normal form of a product of (coefficient, key, exponent)"""
    coef = Fraction(1)
    acc = {}
    for c, k, e in parts:
        coef *= Fraction(c) ** e
        if k == NAN_K:
            return (Fraction(1), NAN_K)
        if k == ONE_K:
            continue
        s = _STRUCT[k]
        if s[0] == 'prod':
            for q, d in s[1]:
                acc[q] = acc.get(q, 0) + d * e
        else:
            acc[k] = acc.get(k, 0) + e
    if coef == 0:
        return (Fraction(0), ONE_K)
    if not acc:
        return (coef, ONE_K)
    if len(acc) == 1:
        (k, e), = acc.items()
        if e == 1:
            return (coef, k)
    return (coef, _key('prod', tuple(sorted(acc.items()))))


def _real(t):
    op, a = t.op, [_MEMO[q.id] for q in t.args]
    if op == 'const':
        return (t.val, ONE_K)
    if op == 'nan':
        return (Fraction(1), NAN_K)
    if op == 'add':
        if NAN_K in (a[0][1], a[1][1]):
            return (Fraction(1), NAN_K)
        return _sum(a)
    if op == 'mul':
        return _prod([(c, k, 1) for c, k in a])
    if op == 'pow':
        return _prod([(a[0][0], a[0][1], t.val)])
    if op == 'div':
        (c, k), (d, q) = a
        if d == 0:
            return (Fraction(1), _key('div0', t.id))
        return _prod([(c / d, k, 1), (1, _key('inv', q), 1)])
    if op == 'fn':
        if t.val in ODD or t.val in EVEN:
            c, k = a[0]
            s = 1
            if c < 0:
                c, s = -c, (-1 if t.val in ODD else 1)
            if t.val == 'abs':
                return (c, _key('fn', 'abs', (1, k)))
            return (Fraction(s), _key('fn', t.val, (c, k)))
        return (Fraction(1), _key('fn', t.val, *a))
    if op == 'ite':
        return _ite(a[0], a[1], a[2])
    if op == 'sum':
        return (a[0][0], _key('colsum', t.val, a[0][1]))
    return (Fraction(1), _key('atom', t.id))


def _ite(c, x, y):
    sign, k = c                 # booleans: (True, key) or (False, key): the negation
    if k == TRUE_K:
        return x if sign else y
    if not sign:
        x, y = y, x
    for _ in range(2):
        s = _STRUCT[y[1]]
        if s[0] == 'ite' and s[1] == k:
            y = (y[0] * s[3][0], s[3][1])
        s = _STRUCT[x[1]]
        if s[0] == 'ite' and s[1] == k:
            x = (x[0] * s[2][0], s[2][1])
    if x == y:
        return x
    lead = y if y[0] != 0 and y[1] not in (NAN_K, ONE_K) else x if x[0] != 0 and x[1] not in (NAN_K, ONE_K) else None
    m = Fraction(1)
    if lead is not None and lead[0] < 0:
        m = Fraction(-1)

    def sc(v):
        return v if v[1] == NAN_K else (v[0] * m, v[1])
    return (m, _key('ite', k, sc(x), sc(y)))


TRUE_K = _key('true')


def _bool(t):
    op = t.op
    a = [_MEMO[q.id] for q in t.args]
    if op == 'true':
        return (True, TRUE_K)
    if op == 'false':
        return (False, TRUE_K)
    if op == 'not':
        return (not a[0][0], a[0][1])
    if op in ('lt', 'le', 'eq'):
        if NAN_K in (a[0][1], a[1][1]):
            return (False, TRUE_K)
        c, k = _sum([a[0], (-a[1][0], a[1][1])])
        if c == 0 or k == ONE_K:
            return ({'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op], TRUE_K)
        if op == 'eq':
            return (True, _key('eq', k))
        if op == 'lt':
            return (True, _key('lt', c > 0, k))
        return (False, _key('lt', c < 0, k))          # a <= b is not b < a
    if op == 'and':
        if (False, TRUE_K) in a:
            return (False, TRUE_K)
        parts = set()
        for s, k in a:
            q = _STRUCT[k]
            if (s, k) == (True, TRUE_K):
                continue
            if s and q[0] == 'and':
                parts |= set(q[1])
            else:
                parts.add((s, k))
        if not parts:
            return (True, TRUE_K)
        if any((not s, k) in parts for s, k in parts):
            return (False, TRUE_K)
        if len(parts) == 1:
            return next(iter(parts))
        return (True, _key('and', tuple(sorted(parts))))
    if op == 'bite':
        c, x, y = a
        if c[1] == TRUE_K:
            return x if c[0] else y
        if not c[0]:
            x, y = y, x
        if x == y:
            return x
        if x[1] == TRUE_K and y[1] == TRUE_K:
            return (x[0], c[1])
        if y == (not x[0], x[1]):
            # c iff x
            if x[1] == c[1]:
                return (x[0], TRUE_K)
            return (x[0], _key('iff', tuple(sorted((c[1], x[1])))))
        return (True, _key('bite', c[1], x, y))
    if op == 'ex':
        return (True, _key('ex', t.val, a[0])) if a[0][1] != TRUE_K else a[0]
    return (True, _key('atom', t.id))


def boolean(t):
    return real(t)


def is_true(t):
    return t.isbool and boolean(t) == (True, TRUE_K)
