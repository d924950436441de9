"""Algebraic decision layer: rational normal forms modulo triangular rewrite rules.

Everything here is sound over the reals: an identity is accepted only if the numerator of the
difference rewrites to the zero polynomial using rules that are theorems (sqrt(x)^2 = x for x >= 0,
sin^2 + cos^2 = 1, hypotheses of the contract).  Numerical fingerprints only *select* which exact
identity to try; they never decide.
"""
from fractions import Fraction
import math
import time
import mpmath
from . import term as tm
from .term import T

mpmath.mp.dps = 40


class TimeUp(Exception):
    pass


DEADLINE = [None]


def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise TimeUp()


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class Restart(Exception):
    pass


class Undef(Exception):
    """The term is NaN / undefined on this branch."""


# ------------------------------------------------------------------ polynomials
def padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        w = r.get(m, 0) + (v if c == 1 else c * v)
        if w:
            r[m] = w
        else:
            r.pop(m, None)
    return r


_MM = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    key = (a, b)
    r = _MM.get(key)
    if r is None:
        d = dict(a)
        for i, e in b:
            d[i] = d.get(i, 0) + e
        r = tuple(sorted((i, e) for i, e in d.items() if e))
        if len(_MM) > 500000:
            _MM.clear()
        _MM[key] = r
    return r


def pmul(p, q):
    if len(p) * len(q) > 2000:
        tick()
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = mmul(m, n)
            x = r.get(k, 0) + v * w
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def ppow(p, n):
    r = {(): 1}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def norm_c(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return v.numerator
    return v


def pscale(p, c):
    if c == 1:
        return p
    return {m: norm_c(v * c) for m, v in p.items()} if c else {}


def pconst(p):
    """constant value or None"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def patoms(p):
    s = set()
    for m in p:
        for i, _e in m:
            s.add(i)
    return s


def pkey(p):
    return frozenset(p.items())


def lead(p):
    return max(p)


def pdivexact(p, q):
    """p / q if exact (multivariate lex division) else None"""
    if not p:
        return {}
    order = lambda m: tuple((-i, e) for i, e in m)  # any total monomial order compatible enough

    def gr(m, atoms):
        d = dict(m)
        return tuple(d.get(i, 0) for i in atoms)
    atoms = sorted(patoms(p) | patoms(q))
    lq = max(q, key=lambda m: gr(m, atoms))
    gq = gr(lq, atoms)
    cq = q[lq]
    r = dict(p)
    out = {}
    steps = 0
    while r:
        lr = max(r, key=lambda m: gr(m, atoms))
        g = gr(lr, atoms)
        d = [a - b for a, b in zip(g, gq)]
        if min(d) < 0:
            return None
        m = tuple((i, e) for i, e in zip(atoms, d) if e)
        c = norm_c(Fraction(r[lr]) / cq)
        out[m] = c
        r = padd(r, pmul({m: c}, q), -1)
        steps += 1
        if steps > 400:
            return None
    return out


class Rat(object):
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}   # key -> (poly, exp)


def rconst(c):
    return Rat({(): norm_c(Fraction(c))} if c else {})


RONE = rconst(1)
RZERO = rconst(0)


def _split_factor(p):
    """poly -> coef, [(factor poly, exp)]"""
    if len(p) == 1:
        (m, c), = p.items()
        return c, [({((i, 1),): 1}, e) for i, e in m]
    # monomial content
    it = iter(p)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        for i in list(common):
            e = min(common[i], d.get(i, 0))
            if e:
                common[i] = e
            else:
                del common[i]
        if not common:
            break
    facs = []
    if common:
        cm = tuple(sorted((i, -e) for i, e in common.items()))
        p = {mmul(m, cm): v for m, v in p.items()}
        facs = [({((i, 1),): 1}, e) for i, e in common.items()]
    c = p[lead(p)]
    # integer-normalise
    p = {m: norm_c(Fraction(v) / c) for m, v in p.items()}
    facs.append((p, 1))
    return c, facs


def den_of(facs):
    d = {}
    for p, e in facs:
        k = pkey(p)
        if k in d:
            d[k] = (p, d[k][1] + e)
        else:
            d[k] = (p, e)
    return d


def den_poly(den):
    r = {(): 1}
    for p, e in den.values():
        r = pmul(r, ppow(p, e))
    return r


def simp(num, den):
    """cancel common factors"""
    if not num:
        return Rat({})
    den = dict(den)
    for k in list(den):
        p, e = den[k]
        if len(p) == 1:
            (m, _c), = p.items()
            if not m:
                del den[k]
                continue
            i = m[0][0]
            mn = min(dict(mm).get(i, 0) for mm in num)
            c = min(mn, e)
            if c > 0:
                num = {mmul(mm, ((i, -c),)): v for mm, v in num.items()}
                if c == e:
                    del den[k]
                else:
                    den[k] = (p, e - c)
        else:
            while e and len(num) >= len(p) and len(num) <= 60 and patoms(p) <= patoms(num):
                q = pdivexact(num, p)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                den[k] = (p, e)
            else:
                del den[k]
    return Rat(num, den)


def radd(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if not a.den and not b.den:
        return Rat(padd(a.num, b.num))
    if a.den == b.den:
        return simp(padd(a.num, b.num), a.den)
    den = dict(a.den)
    fa, fb = {(): 1}, {(): 1}
    for k, (p, e) in b.den.items():
        ea = den[k][1] if k in den else 0
        if e > ea:
            fa = pmul(fa, ppow(p, e - ea))
            den[k] = (p, e)
    for k, (p, e) in den.items():
        eb = b.den[k][1] if k in b.den else 0
        if e > eb:
            fb = pmul(fb, ppow(p, e - eb))
    return simp(padd(pmul(a.num, fa), pmul(b.num, fb)), den)


def rmul(a, b):
    if not a.num or not b.num:
        return Rat({})
    num = pmul(a.num, b.num)
    if not a.den and not b.den:
        return Rat(num)
    den = dict(a.den)
    for k, (p, e) in b.den.items():
        den[k] = (p, e + (den[k][1] if k in den else 0))
    return simp(num, den)


def rneg(a):
    return Rat(pscale(a.num, -1), a.den)


def rsub(a, b):
    return radd(a, rneg(b))


def rinv(a):
    c, facs = _split_factor(a.num)
    return simp(pscale(den_poly(a.den), norm_c(Fraction(1) / c)), den_of(facs))


def rscale(a, c):
    return Rat(pscale(a.num, c), a.den)


def rpow(a, n):
    r = RONE
    for _ in range(n):
        r = rmul(r, a)
    return r


class Atom(object):
    __slots__ = ('idx', 'kind', 'data', 'vals', 'name', 'term')


HALF_PI = mpmath.pi / 2


class Alg(object):
    """Normal forms in a fixed branch (no free choices left).

    decide(cond) -> True/False/None is supplied by the prover.
    """

    def __init__(self, units=(), rules=None, samples=(), decide=None, hints=(), base_units=None,
                 ufs=None, positive=None, subs=None):
        self.atoms = []
        self.bykey = {}
        self.rules = {}
        self.units = {}
        for fam in units:
            for nm in fam:
                self.units[nm] = tuple(fam)
        self.samples = list(samples)
        self.decide = decide or (lambda c: None)
        self.memo = {}
        self.hints = list(hints)
        self.base_units = base_units if base_units is not None else {}
        self.obl = {}           # definedness obligations: (kind, polykey) -> (kind, Rat, descr)
        self.ufs = ufs
        self.positive = positive or (lambda r, strict: None)
        self.hint_rats = None
        self.nonneg_facts = []
        self.subs = subs or {}
        self.cut_table, self.unfold = {}, {}
        self.restated = set()
        self.maybe_positive = positive or (lambda r, strict: False)
        self.depth_same = 0

    # ---------------------------------------------------------- atoms
    def new_atom(self, key, kind, data, vals, name, rule=None):
        a = Atom()
        a.idx, a.kind, a.data, a.vals, a.name = len(self.atoms), kind, data, vals, name
        self.atoms.append(a)
        self.bykey[key] = a
        if rule is not None:
            self.rules[a.idx] = rule
        return a

    def atom_rat(self, a):
        return Rat({((a.idx, 1),): 1})

    def pval(self, p, k):
        s = mpmath.mpf(0)
        for m, c in p.items():
            t = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
            for i, e in m:
                t *= self.atoms[i].vals[k] ** e
            s += t
        return s

    def rvals(self, r):
        out = []
        for k in range(len(self.samples)):
            v = self.pval(r.num, k)
            for p, e in r.den.values():
                d = self.pval(p, k)
                if d == 0:
                    v = mpmath.nan
                    break
                v = v / d ** e
            out.append(v)
        return out

    def close(self, u, v):
        if not u:
            return False
        for a, b in zip(u, v):
            if mpmath.isnan(a) or mpmath.isnan(b):
                return False
            if abs(a - b) > mpmath.mpf(10) ** -24 * (abs(a) + abs(b)) and abs(a - b) > mpmath.mpf(10) ** -32:
                return False
        return True

    def var_atom(self, t):
        key = ('var', t.id)
        a = self.bykey.get(key)
        if a is None:
            vals = [tm.evaluate(t, env) for env in self.samples]
            name, tags = t.val
            fam = self.units.get(name)
            a = self.new_atom(key, 'var', t, vals, tm.show(t))
            if fam is not None:
                self.unit_rule(fam, tags)
        return a

    def unit_rule(self, fam, tags):
        if ('unit', fam, tags) in self.bykey:
            return
        self.bykey[('unit', fam, tags)] = True
        z = None
        rest = []
        for nm in reversed(fam):
            v = tm.var(nm, *tags)
            if v.id in self.subs:
                rest.append(self.rat(self.subs[v.id]))
            elif z is None:
                z = self.var_atom(v)
            else:
                rest.append(self.atom_rat(self.var_atom(v)))
        if z is None:
            return
        rhs = RONE
        for r in rest:
            if z.idx in patoms(r.num):
                return
            rhs = rsub(rhs, rmul(r, r))
        self.rules[z.idx] = (2, rhs)

    # ---------------------------------------------------------- reduction
    def reduce(self, p):
        """poly -> Rat with no ruled power left"""
        den = {}
        guard = 0
        while True:
            best = -1
            for m in p:
                for i, e in m:
                    if i > best and i in self.rules and e >= self.rules[i][0]:
                        best = i
            if best < 0:
                return simp(p, den) if den else Rat(p)
            guard += 1
            tick()
            if guard > 500:
                raise RuntimeError('reduction does not terminate')
            pw, rep = self.rules[best]
            groups = {}
            K = 0
            for m, c in p.items():
                e = 0
                rest = m
                for i, ee in m:
                    if i == best:
                        e = ee
                        rest = tuple(x for x in m if x[0] != best)
                        break
                q, rr = divmod(e, pw)
                if rr:
                    rest = mmul(rest, ((best, rr),))
                g = groups.setdefault(q, {})
                g[rest] = g.get(rest, 0) + c
                K = max(K, q)
            D = den_poly(rep.den) if rep.den else None
            new = {}
            for q, g in groups.items():
                x = pmul(g, ppow(rep.num, q)) if q else g
                if D is not None and K - q:
                    x = pmul(x, ppow(D, K - q))
                new = padd(new, x)
            p = new
            if D is not None:
                for k, (pp, e) in rep.den.items():
                    den[k] = (pp, e * K + (den[k][1] if k in den else 0))
            if not p:
                return Rat({})

    def rreduce(self, r):
        n = self.reduce(r.num)
        return simp(n.num, _denmul(n.den, r.den))

    def is_zero(self, r):
        # numerical pre-check: cheap rejection
        if not r.num:
            return True
        if self.samples:
            v = self.rvals_num(r)
            if v:
                return False
        red = self.reduce(r.num)
        if not red.num:
            return True
        if self.unfold:
            return self.zero_unfolding(red.num)
        return False

    def rvals_num(self, r):
        """True if the numerator is numerically non-zero at some sample (relative to its terms)."""
        for k in range(len(self.samples)):
            s = mpmath.mpf(0)
            mag = mpmath.mpf(0)
            for m, c in r.num.items():
                t = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
                for i, e in m:
                    t *= self.atoms[i].vals[k] ** e
                s += t
                mag += abs(t)
            if mpmath.isnan(s):
                continue
            if abs(s) > mpmath.mpf(10) ** -24 * mag:
                return True
        return False

    # ---------------------------------------------------------- terms -> Rat
    def rat(self, t):
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op == 'ite':
                d = self.decide(x.args[0])
                if d is None:
                    r = self.same_branches(x)
                    if r is None:
                        raise NeedSplit(x.args[0])
                    memo[x.id] = r
                    stack.pop()
                    continue
                br = x.args[1] if d else x.args[2]
                if br.id not in memo:
                    stack.append(br)
                    continue
                memo[x.id] = memo[br.id]
                stack.pop()
                continue
            if x.op in ('sum',):
                memo[x.id] = self.sum_rat(x)
                stack.pop()
                continue
            if x.op == 'fn' and x.val in ('sin', 'cos', 'tan'):
                todo = [a for a in x.args if a.id not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                s, c = self.sincos(memo[x.args[0].id])
                memo[x.id] = s if x.val == 'sin' else c if x.val == 'cos' else rmul(s, self.inv(c))
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            r = self.step(x, [memo[a.id] for a in x.args])
            if self.cut_table and (len(r.num) > 1 or r.den):
                c = self.cut_table.get(self.ratkey(r))
                if c is not None:
                    r = self.atom_rat(c)
                else:
                    c = self.cut_table.get(self.ratkey(rneg(r)))
                    if c is not None:
                        r = rneg(self.atom_rat(c))
            memo[x.id] = r
        return memo[t.id]

    def same_branches(self, x):
        """value of an undecided conditional whose alternatives are equal and both defined"""
        if self.depth_same > 2:
            return None
        self.depth_same += 1
        try:
            old = set(self.obl)
            a, b = self.rat(x.args[1]), self.rat(x.args[2])
            if not self.is_zero(rsub(a, b)):
                return None
            for k in list(self.obl):
                if k not in old:
                    kind, r, _why, _sp = self.obl[k]
                    if kind == 'ne0':
                        if not (self.positive(r, True) or self.positive(rneg(r), True)):
                            return None
                    elif not self.positive(r, False):
                        return None
            return min((a, b), key=lambda r: (len(r.num), len(r.den)))
        except (NeedSplit, Undef):
            return None
        finally:
            self.depth_same -= 1

    def add_cuts(self, cuts):
        """cuts: (name, term, unfold, rule or None); equal values are abstracted to a new atom"""
        for name, term, unfold, rule in cuts:
            try:
                r = self.rat(term)
            except (NeedSplit, Undef):
                continue
            if not r.den and (len(r.num) < 2 and all(sum(e for _i, e in m) < 2 for m in r.num)):
                at = [m[0][0] for m, c in r.num.items() if m and c == 1]
                if rule is not None and at and self.atoms[at[0]].kind == 'sqrt':
                    self.rules[at[0]] = (rule[0], self.rat(rule[1]))
                    self.restated.add(at[0])
                continue
            key = self.ratkey(r)
            if key in self.cut_table:
                continue
            a = self.new_atom(('cut', name), 'cut', r, self.rvals(r), name)
            self.cut_table[key] = a
            self.memo[term.id] = self.atom_rat(a)
            if unfold:
                self.unfold[a.idx] = r
            if rule is not None:
                self.rules[a.idx] = (rule[0], self.rat(rule[1]))

    def unfold_one(self, num, i):
        d = self.unfold[i]
        out = Rat({})
        byexp = {}
        for m, c in num.items():
            e = dict(m).get(i, 0)
            byexp.setdefault(e, {})[tuple(q for q in m if q[0] != i)] = c
        top = max(byexp)
        D = den_poly(d.den)
        acc = {}
        for e, p in byexp.items():
            acc = padd(acc, pmul(pmul(p, ppow(d.num, e)), ppow(D, top - e)))
        return acc

    def zero_unfolding(self, num):
        """zero after replacing unfoldable cut atoms by their definitions, latest first"""
        for _ in range(40):
            here = [i for i in self.unfold if any(j == i for m in num for j, _e in m)]
            if not here:
                return False
            num = self.reduce(self.unfold_one(num, max(here))).num
            if not num:
                return True
        return False

    def step(self, x, v):
        op = x.op
        if op == 'const':
            return rconst(x.val)
        if op == 'pi':
            return self.pi()
        if op == 'nan':
            raise Undef()
        if op == 'var':
            return self.atom_rat(self.var_atom(x))
        if op == 'add':
            return radd(v[0], v[1])
        if op == 'mul':
            return rmul(v[0], v[1])
        if op == 'div':
            return rmul(v[0], self.inv(v[1]))
        if op == 'pow':
            return rpow(v[0], x.val)
        if op == 'fn':
            return self.fn_rat(x.val, v, x)
        raise ValueError('not a real term: ' + op)

    def pi(self):
        a = self.bykey.get(('pi',))
        if a is None:
            a = self.new_atom(('pi',), 'pi', None, [+mpmath.pi] * len(self.samples), 'pi')
        return self.atom_rat(a)

    def inv(self, r, split=None):
        if pconst(r.num) is not None:
            if not r.num:
                raise Undef()
            return rinv(r)
        red = self.rreduce(r)
        if not red.num:
            raise Undef()
        self.need('ne0', red, 'denominator', split)
        if len(red.num) < len(r.num) or pconst(red.num) is not None:
            r = red
        # a sqrt sum in the denominator stays a factor
        return rinv(r)

    def need(self, kind, r, why, split=None):
        c = pconst(r.num)
        if c is not None and not r.den:
            ok = (c != 0) if kind == 'ne0' else (c >= 0)
            if not ok:
                raise Undef()
            return
        key = (kind, pkey(r.num), frozenset((k, e) for k, (_p, e) in r.den.items()))
        if key not in self.obl:
            self.obl[key] = (kind, r, why, split)

    def fn_rat(self, name, v, x):
        if name == 'sqrt':
            return self.sqrt(v[0], tm.nonneg(x.args[0]))
        if name == 'abs':
            return self.absval(v[0])
        if name in ('asin', 'acos'):
            r = self.rreduce(v[0])
            c = pconst(r.num) if not r.den else None
            if c is not None and abs(c) == 1:
                if name == 'asin':
                    return rmul(self.pi(), rconst(Fraction(c) / 2))
                return RZERO if c == 1 else self.pi()
            if not r.num:
                return RZERO if name == 'asin' else rmul(self.pi(), rconst(Fraction(1, 2)))
            self.need('ge0', self.rreduce(rsub(RONE, rmul(r, r))), name + ' domain')
            if r.num and min(r.num.items(), key=lambda q: str(q[0]))[1] < 0:
                a = self.gen_atom(name, [rneg(r)], tm.fn(name, tm.mul(tm.const(-1), x.args[0])))     # asin is odd, acos(-x) = pi - acos(x)
                return rneg(a) if name == 'asin' else rsub(self.pi(), a)
            return self.gen_atom(name, [r], x)
        if name == 'atan2':
            y, xx = self.rreduce(v[0]), self.rreduce(v[1])
            if not y.num and not xx.num:
                return RZERO
            if not y.num:
                s = self.positive(xx, True)
                if s:
                    return RZERO
                s = self.positive(rneg(xx), True)
                if s:
                    return self.pi()
            if not xx.num:
                if self.positive(y, True):
                    return rscale(self.pi(), Fraction(1, 2))
                if self.positive(rneg(y), True):
                    return rscale(self.pi(), Fraction(-1, 2))
            return self.gen_atom(name, [y, xx], x)
        if name.startswith('root'):
            n = int(name[4:])
            r = self.rreduce(v[0])
            self.need('ge0', r, name + ' domain')
            a = self.gen_atom(name, [r], x)
            (m, _c), = a.num.items()
            self.rules.setdefault(m[0][0], (n, r))
            return a
        if name == 'mod':
            return self.gen_atom(name, [self.rreduce(q) for q in v], x)
        return self.gen_atom(name, [self.rreduce(q) for q in v], x)

    def ratkey(self, r):
        return (pkey(r.num), frozenset((k, e) for k, (_p, e) in r.den.items()))

    def gen_atom(self, name, args, x):
        key = ('fn', name) + tuple(self.ratkey(a) for a in args)
        a = self.bykey.get(key)
        if a is not None:
            return self.atom_rat(a)
        avals = [self.rvals(r) for r in args]
        vals = []
        for k in range(len(self.samples)):
            try:
                vals.append(tm._evfn(name, [av[k] for av in avals], self.ufs))
            except tm.Undefined:
                vals.append(_hashval(name, [av[k] for av in avals]))
        # unify with an existing atom of the same name and provably equal arguments
        for b in self.atoms:
            if b.kind == name and (not vals or self.close(b.vals, vals)):
                if all(self.is_zero(rsub(p, q)) for p, q in zip(args, b.data)):
                    self.bykey[key] = b
                    return self.atom_rat(b)
        a = self.new_atom(key, name, args, vals, '{}#{}'.format(name, len(self.atoms)))
        a.term = x
        return self.atom_rat(a)

    # ---------------------------------------------------------- sqrt / abs
    def sqrt(self, r, nonneg=False):
        r = self.rreduce(r)
        if not r.num:
            return RZERO
        if not r.den:
            c = pconst(r.num)
            if c is not None:
                if c < 0:
                    raise Undef()
                c = Fraction(c)
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return rconst(Fraction(n, d))
        key = ('sqrt', self.ratkey(r))
        hit = self.memo.get(key)
        if hit is not None:
            return hit
        res = self._sqrt(r, key, nonneg)
        self.memo[key] = res
        return res

    def _sqrt(self, r, key, nonneg=False):
        rv = self.rvals(r)
        vals = [mpmath.sqrt(v) if v >= 0 else (mpmath.mpf(0) if v > -mpmath.mpf(10) ** -30 else mpmath.nan)
                for v in rv]
        # 1. existing sqrt atom with an equal radicand
        for b in self.atoms:
            if b.kind == 'sqrt' and (not vals or self.close(b.vals, vals)):
                if self.is_zero(rsub(r, b.data)):
                    return self.atom_rat(b)
        # 2. monomial perfect squares
        if len(r.num) == 1 and all(len(p) == 1 for p, _e in r.den.values()):
            (m, c), = r.num.items()
            c = Fraction(c)
            if c > 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator and \
                        all(e % 2 == 0 for _i, e in m) and all(e % 2 == 0 for _p, e in r.den.values()):
                    out = rconst(Fraction(n, d))
                    for i, e in m:
                        out = rmul(out, rpow(self.absval(self.atom_rat(self.atoms[i])), e // 2))
                    for p, e in r.den.values():
                        out = rmul(out, rpow(rinv(self.absval(Rat(p))), e // 2))
                    return out
        # 3. numerically selected candidates: hints, atoms, products and quotients of atoms
        if vals and not any(mpmath.isnan(v) for v in vals):
            for cand in self.candidates(vals):
                if self.is_zero(rsub(rmul(cand, cand), r)):
                    if self.positive(cand, False):
                        return self.rreduce(cand)
        # 4. new atom
        if nonneg is True:
            self.nonneg_facts.append(r)
        else:
            self.need('ge0', r, 'sqrt radicand')
        a = self.new_atom(key, 'sqrt', r, vals, 'sqrt#{}'.format(len(self.atoms)), (2, r))
        return self.atom_rat(a)

    def candidates(self, vals):
        if self.hint_rats is None:
            self.hint_rats = []
            for h in self.hints:
                try:
                    self.hint_rats.append(self.rat(h))
                except (NeedSplit, Undef, KeyError):
                    pass
        n = len(vals)
        for h in self.hint_rats:
            for s in (1, -1):
                q = rscale(h, s)
                if self.close(self.rvals(q), vals):
                    yield q
        pool = [a for a in self.atoms if a.kind in ('var', 'sqrt', 'sin', 'cos', 'abs')
                and len(a.vals) == n and not any(mpmath.isnan(v) or v == 0 for v in a.vals)]
        pool = pool[:40]
        one = [mpmath.mpf(1)] * n

        def ratio(v, w):
            """rational c with v = c*w at all samples"""
            c0 = v[0] / w[0]
            for a, b in zip(v[1:], w[1:]):
                if abs(a / b - c0) > mpmath.mpf(10) ** -22 * abs(c0):
                    return None
            f = Fraction(str(mpmath.nstr(c0, 30))).limit_denominator(10 ** 6)
            if f == 0 or abs(mpmath.mpf(f.numerator) / f.denominator - c0) > mpmath.mpf(10) ** -20 * abs(c0):
                return None
            return f
        if any(v == 0 for v in vals):
            return
        if n < 2:
            return
        c = ratio(vals, one)
        if c is not None:
            yield rconst(c)
        for a in pool:
            c = ratio(vals, a.vals)
            if c is not None:
                yield rscale(self.atom_rat(a), c)
            c = ratio([v * w for v, w in zip(vals, a.vals)], one)
            if c is not None:
                yield rscale(rinv(self.atom_rat(a)), c)
        for i, a in enumerate(pool):
            av = a.vals
            for b in pool[i:]:
                bv = b.vals
                c = ratio(vals, [x * y for x, y in zip(av, bv)])
                if c is not None:
                    yield rscale(rmul(self.atom_rat(a), self.atom_rat(b)), c)
                if a is not b:
                    c = ratio([v * y for v, y in zip(vals, bv)], av)
                    if c is not None:
                        yield rscale(rmul(self.atom_rat(a), rinv(self.atom_rat(b))), c)
                    c = ratio([v * x for v, x in zip(vals, av)], bv)
                    if c is not None:
                        yield rscale(rmul(self.atom_rat(b), rinv(self.atom_rat(a))), c)

    def absval(self, r):
        r = self.rreduce(r)
        if not r.num:
            return RZERO
        c = pconst(r.num)
        if c is not None and not r.den:
            return rconst(abs(c))
        if self.maybe_positive(r, False):
            return r
        if self.maybe_positive(rneg(r), False):
            return rneg(r)
        out = self.abs_factors(r)
        if out is not None:
            return out
        vals = [abs(v) for v in self.rvals(r)]
        for b in self.atoms:
            if b.kind == 'abs' and (not vals or self.close(b.vals, vals)):
                if self.is_zero(rsub(r, b.data)) or self.is_zero(radd(r, b.data)):
                    return self.atom_rat(b)
        a = self.new_atom(('abs', self.ratkey(r)), 'abs', r, vals, 'abs#{}'.format(len(self.atoms)),
                          (2, self.rreduce(rmul(r, r))))
        return self.atom_rat(a)

    def abs_factors(self, r):
        """|r| with the factors of known sign in front, or None"""
        if len(r.num) != 1:
            return None
        (m, c), = r.num.items()
        front, inner = rconst(abs(c)), rconst(1)
        pulled = abs(c) != 1 or c < 0
        for i, e in m:
            a = rpow(Rat({((i, 1),): 1}), e)
            if e % 2 == 0 or self.maybe_positive(Rat({((i, 1),): 1}), False):
                front, pulled = rmul(front, a), True
            else:
                inner = rmul(inner, a)
        for k, (p, e) in r.den.items():
            a = Rat({(): 1}, {k: (p, e)})
            if e % 2 == 0 or self.maybe_positive(Rat(p), False):
                front, pulled = rmul(front, a), True
            else:
                inner = rmul(inner, a)
        if not pulled:
            return None
        return rmul(front, self.absval(inner))

    # ---------------------------------------------------------- angles
    def angle_terms(self, r):
        """[(coef, base Laurent monomial)] or None"""
        if not r.num:
            return []
        dm = {}
        for p, e in r.den.values():
            if len(p) != 1:
                return None
            (m, c), = p.items()
            for i, ee in m:
                dm[i] = dm.get(i, 0) - ee * e
        dmon = tuple(sorted(dm.items()))
        return [(Fraction(c), mmul(m, dmon)) for m, c in sorted(r.num.items())]

    def sincos(self, r):
        r = self.rreduce(r)
        terms = self.angle_terms(r)
        if terms is None:
            return self.opaque_angle(r)
        s, c = RZERO, RONE
        for coef, base in terms:
            sb, cb = self.sincos1(coef, base)
            s, c = (self.rreduce(radd(rmul(s, cb), rmul(c, sb))),
                    self.rreduce(rsub(rmul(c, cb), rmul(s, sb))))
        return s, c

    def sincos1(self, coef, base):
        if not base:     # a rational number of radians
            return self.opaque_angle(rconst(coef))
        if len(base) == 1 and base[0][1] == 1:
            a = self.atoms[base[0][0]]
            if a.kind == 'pi':
                k = coef * 2
                if k.denominator == 1:
                    k = int(k) % 4
                    return [(RZERO, RONE), (RONE, RZERO), (RZERO, rconst(-1)), (rconst(-1), RZERO)][k]
                return self.pi_const(coef)
            if a.kind == 'mod' and coef.denominator == 1:
                arg, m = a.data
                two_pi = rscale(self.pi(), 2)
                q = rmul(m, rinv(two_pi))
                qc = pconst(q.num) if not q.den else None
                if qc is not None and (Fraction(qc) * coef).denominator == 1:
                    return self.sincos(rscale(arg, coef))
            if a.kind in ('atan2', 'asin', 'acos', 'atan'):
                if coef.denominator == 1:
                    s, c = self.inverse_sc(a)
                    return self.multiple(s, c, int(coef))
                if (coef * 2).denominator == 1:
                    h = self.half_sc(a)
                    if h is not None:
                        return self.multiple(h[0], h[1], int(coef * 2))
        u = self.base_units.get(self.basekey(base))
        if u is None:
            u = self.base_units[self.basekey(base)] = abs(coef)
        k = coef / u
        if k.denominator != 1:
            self.base_units[self.basekey(base)] = Fraction(math.gcd(coef.numerator * u.denominator,
                                                                    u.numerator * coef.denominator),
                                                           coef.denominator * u.denominator)
            raise Restart()
        key = ('angle', base)
        hit = self.bykey.get(key)
        if hit is None:
            ang = Rat({tuple(x for x in base if x[1] > 0): norm_c(u)})
            for i, e in base:
                if e < 0:
                    ang = rmul(ang, rpow(rinv(self.atom_rat(self.atoms[i])), -e))
            hit = self.make_angle(key, ang)
        return self.multiple(hit[0], hit[1], int(k))

    def basekey(self, base):
        return tuple((self.atoms[i].name, e) for i, e in base)

    def make_angle(self, key, ang):
        av = self.rvals(ang)
        c = self.new_atom(key + ('cos',), 'cos', ang, [mpmath.cos(v) for v in av], 'cos#%d' % len(self.atoms))
        s = self.new_atom(key + ('sin',), 'sin', ang, [mpmath.sin(v) for v in av], 'sin#%d' % len(self.atoms))
        self.rules[s.idx] = (2, Rat({(): 1, ((c.idx, 2),): -1}))
        hit = (self.atom_rat(s), self.atom_rat(c))
        self.bykey[key] = hit
        return hit

    def opaque_angle(self, r):
        key = ('angle', self.ratkey(r))
        hit = self.bykey.get(key)
        if hit is None:
            hit = self.make_angle(key, r)
        return hit

    def pi_const(self, coef):
        coef = coef % 2
        q = coef % Fraction(1, 2)
        k = int((coef - q) * 2)
        if q == Fraction(1, 4):
            h = self.sqrt(rconst(Fraction(1, 2)))
            s, c = h, h
        elif q == Fraction(1, 6):
            s, c = rconst(Fraction(1, 2)), rscale(self.sqrt(rconst(3)), Fraction(1, 2))
        elif q == Fraction(1, 3):
            s, c = rscale(self.sqrt(rconst(3)), Fraction(1, 2)), rconst(Fraction(1, 2))
        else:
            return self.opaque_angle(rscale(self.pi(), coef))
        for _ in range(k):
            s, c = c, rneg(s)
        return s, c

    def multiple(self, s, c, k):
        if k == 1:
            return s, c
        if k < 0:
            a, b = self.multiple(s, c, -k)
            return rneg(a), b
        S, C = RZERO, RONE
        for _ in range(k):
            S, C = self.rreduce(radd(rmul(S, c), rmul(C, s))), self.rreduce(rsub(rmul(C, c), rmul(S, s)))
        return S, C

    def inverse_sc(self, a):
        key = ('isc', a.idx)
        hit = self.bykey.get(key)
        if hit is None:
            if a.kind == 'atan2':
                y, x = a.data
                h = self.sqrt(radd(rmul(x, x), rmul(y, y)), True)
                ih = self.inv(h, getattr(a, 'term', None))
                hit = (rmul(y, ih), rmul(x, ih))
            elif a.kind == 'asin':
                x, = a.data
                hit = (x, self.sqrt(rsub(RONE, rmul(x, x)), 'dom'))
            elif a.kind == 'acos':
                x, = a.data
                hit = (self.sqrt(rsub(RONE, rmul(x, x)), 'dom'), x)
            else:
                x, = a.data
                ih = self.inv(self.sqrt(radd(RONE, rmul(x, x)), True))
                hit = (rmul(x, ih), ih)
            hit = (self.rreduce(hit[0]), self.rreduce(hit[1]))
            self.bykey[key] = hit
        return hit

    def half_sc(self, a):
        """sin, cos of half of an inverse-trig angle in [-pi, pi]: cos(h) >= 0, sign sin(h) = sign sin"""
        s, c = self.inverse_sc(a)
        ch = self.sqrt(rscale(radd(RONE, c), Fraction(1, 2)), True)   # |c| <= 1: c is a cosine
        sh = self.sqrt(rscale(rsub(RONE, c), Fraction(1, 2)), True)
        if self.positive(s, False):
            return sh, ch
        if self.positive(rneg(s), False):
            return rneg(sh), ch
        return None

    # ---------------------------------------------------------- sums over the symbolic columns
    def sum_rat(self, x):
        tag = x.val
        body = self.rreduce(self.rat(x.args[0]))
        dfree, dtag = {}, {}
        for k, (p, e) in body.den.items():
            (dtag if any(self.has_tag(self.atoms[i], tag) for i in patoms(p)) else dfree)[k] = (p, e)
        out = Rat({})
        groups = {}
        for m, c in body.num.items():
            fr = tuple(x for x in m if not self.has_tag(self.atoms[x[0]], tag))
            tg = tuple(x for x in m if self.has_tag(self.atoms[x[0]], tag))
            groups.setdefault(tg, {})[fr] = c
        for tg, coef in sorted(groups.items()):
            if not tg and not dtag:
                # constant body: N * value
                n = self.rat(tm.var('#N'))
                out = radd(out, rmul(Rat(coef), n))
                continue
            part = Rat({tg: 1}, dtag)
            key = ('sum', tag, self.ratkey(part))
            a = self.bykey.get(key)
            if a is None:
                vals = []
                for k, env in enumerate(self.samples):
                    tot = mpmath.mpf(0)
                    for col in range(env['#columns']):
                        sub = _ColView(env, col, tag)
                        tot += self.eval_rat_col(part, sub)
                    vals.append(tot)
                a = self.new_atom(key, 'sum', part, vals, 'sum#%d' % len(self.atoms))
            out = radd(out, rmul(Rat(coef), self.atom_rat(a)))
        return rmul(out, Rat({(): 1}, dfree)) if dfree else out

    def has_tag(self, a, tag):
        if a.kind == 'var':
            return tag in a.data.val[1]
        if a.kind in ('pi', 'sum'):
            return False
        data = a.data if isinstance(a.data, (list, tuple)) else [a.data]
        for r in data:
            for i in patoms(r.num):
                if self.has_tag(self.atoms[i], tag):
                    return True
            for p, _e in r.den.values():
                for i in patoms(p):
                    if self.has_tag(self.atoms[i], tag):
                        return True
        return False

    def eval_rat_col(self, r, env):
        def atom_val(i):
            a = self.atoms[i]
            if a.kind == 'var':
                name, tags = a.data.val
                if name == '#N':
                    return mpmath.mpf(env.env['#columns'])
                return env.env[(name, tuple(env.col if g == env.tag else tm.TAGCOL.get(g, 0) if isinstance(g, str) else g
                                              for g in tags))]
            if a.kind == 'pi':
                return +mpmath.pi
            if a.kind == 'sqrt':
                return mpmath.sqrt(self.eval_rat_col(a.data, env))
            if a.kind == 'abs':
                return abs(self.eval_rat_col(a.data, env))
            if a.kind in ('sin', 'cos'):
                return getattr(mpmath, a.kind)(self.eval_rat_col(a.data, env))
            if a.kind == 'sum':
                return a.vals[0]
            args = a.data if isinstance(a.data, (list, tuple)) else [a.data]
            vs = [self.eval_rat_col(q, env) for q in args]
            try:
                return tm._evfn(a.kind, vs, self.ufs)
            except tm.Undefined:
                return _hashval(a.kind, vs)

        def pv(p):
            s = mpmath.mpf(0)
            for m, c in p.items():
                t = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
                for i, e in m:
                    t *= atom_val(i) ** e
                s += t
            return s
        v = pv(r.num)
        for p, e in r.den.values():
            v /= pv(p) ** e
        return v


class _ColView(object):
    def __init__(self, env, col, tag):
        self.env, self.col, self.tag = env, col, tag


def _denmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, (p, e) in b.items():
        d[k] = (p, e + (d[k][1] if k in d else 0))
    return d


_hashval = tm.hashval
