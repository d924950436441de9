"""Obligation prover: case splitting on top of alg.Alg, z3/cvc5 for signs and inequalities."""
from fractions import Fraction
import subprocess
import tempfile
import os
import time
import mpmath
from . import term as tm
from . import alg as al
from . import canon
from .alg import Alg, NeedSplit, Restart, Undef, Rat, patoms, pconst, rsub, rneg, rmul

STATS = {'z3': 0, 'cvc5': 0, 'nf': 0, 'z3_s': 0.0, 'cvc5_s': 0.0}
Z3_MS = 4000
BUDGET_SCALE = 1.0       # larger in the second attempt


class Unproved(Exception):
    def __init__(self, why, hyps=(), refuted=None):
        Exception.__init__(self, why)
        self.why, self.hyps, self.refuted = why, hyps, refuted


def flatten(h, out):
    if h.op == 'and':
        for a in h.args:
            flatten(a, out)
    elif h is not tm.TRUE:
        out.append(h)
    return out


def small(t, n=8):
    return count(t, n) <= n


def count(t, n):
    k = 1
    for a in t.args:
        k += count(a, n)
        if k > n:
            break
    return k


class Theory(object):
    """Facts shared by all branches of one contract configuration."""

    def __init__(self, units=(), hyps=(), samples=(), hints=(), ufs=None, lemmas=(), cuts=()):
        self.units, self.hyps, self.samples, self.hints, self.ufs = units, list(hyps), samples, list(hints), ufs
        self.base_units = {}
        self.lemmas = list(lemmas)
        self.cuts = list(cuts)     # (name, term, unfold, rule)
        self.root = None           # the last root branch (hypothesis ids, Branch), reused by the next goal
        self.proved = {}           # (hypothesis ids, goal id) -> Result
        self._live = None
        self.relational = False

    def live(self):
        """does some sample satisfy the hypotheses of the contract"""
        if self._live is None:
            self._live = bool(self.samples and Branch(self, self.hyps).samples)
        return self._live


class Branch(object):
    def __init__(self, theory, hyps, subs=None, depth=0):
        self.th = theory
        self.subs = dict(subs or {})
        self.depth = depth
        self.raw = list(hyps)
        self.infeasible = False
        self.setup()

    # ------------------------------------------------------------ setup
    def sub(self, t):
        return tm.subst(t, self.subs) if self.subs else t

    def setup(self):
        flat = []
        for h in self.raw:
            flatten(self.sub(h), flat)
        # facts with a generic tag hold for every tag; instances are created lazily in facts_for
        self.hyps = []
        for h in flat:
            if h is tm.FALSE:
                self.infeasible = True
            elif h not in self.hyps:
                self.hyps.append(h)
        self.samples = [env for env in self.th.samples if self.sat(env)]
        if not self.samples and self.subs:
            # a measure-zero branch: move the samples onto it
            moved = [self.move(env) for env in self.th.samples]
            self.samples = [env for env in moved if env is not None and self.sat(env)]
        self.facts = set(h.id for h in self.hyps)
        self.dmemo = {}
        self.pmemo = {}
        self.ms = None
        self.alg = Alg(self.th.units, samples=self.samples, decide=self.decide, hints=[self.sub(h) for h in self.th.hints],
                       base_units=self.th.base_units, ufs=self.th.ufs, positive=self.positive, subs=self.subs)
        self.alg.maybe_positive = self.maybe_positive
        self.signs = []         # (Rat, kind) facts: kind in '>', '>=', '!='
        self.pending = list(self.hyps)
        self.busy = False
        if self.th.cuts:
            # bounds of variables first: the definitions of the cuts may depend on them
            self.gen = gen = getattr(self, 'gen', 0) + 1
            self.pending = [h for h in self.hyps if small(h)]
            if not self.infeasible:
                self.absorb()
                if self.gen != gen:
                    return
            self.pending = [h for h in self.hyps if not small(h)] + self.pending
            self.pmemo = {}
            self.alg.add_cuts([(n, self.sub(t), u, None if r is None else (r[0], self.sub(r[1])))
                               for n, t, u, r in self.th.cuts])
        if not self.infeasible:
            self.absorb()

    def move(self, env):
        """env with the solved variables of this branch replaced, unit vectors renormalised"""
        env = dict(env)
        fixed = set()
        for k in self.subs:
            if k in tm.VARS:
                fixed.add(tm.col_key(tm.VARS[k]))
        try:
            for k, t in self.subs.items():
                if k in tm.VARS:
                    env[tm.col_key(tm.VARS[k])] = tm.evaluate(t, env, None, self.th.ufs)
            for fam in self.th.units:
                for tags in set(k[1] for k in fixed if k[0] in fam):
                    keys = [(nm, tags) for nm in fam]
                    free = [k for k in keys if k not in fixed]
                    left = 1 - sum(env[k] ** 2 for k in keys if k in fixed)
                    cur = sum(env[k] ** 2 for k in free)
                    if left < 0 or not cur:
                        return None
                    for k in free:
                        env[k] = env[k] * mpmath.sqrt(left / cur)
            for k, t in self.subs.items():
                if k in tm.VARS:
                    env[tm.col_key(tm.VARS[k])] = tm.evaluate(t, env, None, self.th.ufs)
        except (KeyError, tm.Undefined):
            return None
        return env

    def sat(self, env):
        for h in self.raw:
            try:
                if not tm.evaluate(h, env, None, self.th.ufs):
                    return False
            except (KeyError, tm.Undefined):
                return False
        return True

    def absorb(self):
        """Turn hypotheses into sign facts and variable substitutions."""
        again = True
        while again:
            again = False
            for h in list(self.pending):
                k = h.op
                neg = False
                g = h
                if k == 'not':
                    neg, g = True, h.args[0]
                if g.op not in ('lt', 'le', 'eq'):
                    self.pending.remove(h)
                    continue
                try:
                    a, b = self.alg.rat(g.args[0]), self.alg.rat(g.args[1])
                except (NeedSplit, Undef):
                    continue
                self.pending.remove(h)
                d = rsub(b, a)
                if g.op == 'lt':
                    self.signs.append((rneg(d), '>=') if neg else (d, '>'))
                elif g.op == 'le':
                    self.signs.append((rneg(d), '>') if neg else (d, '>='))
                elif neg:
                    self.signs.append((d, '!='))
                if g.op == 'eq' and not neg or self.signs and self.signs[-1][1] == '>=' and self.never_positive(self.signs[-1][0]):
                    new = self.solve_zero(d.num)
                    if new:
                        self.subs.update(new)
                        for v in list(self.subs):
                            self.subs[v] = tm.subst(self.subs[v], new)
                        keep = self.infeasible
                        self.setup()
                        self.infeasible = self.infeasible or keep
                        return
                if g.op == 'eq' and not neg:
                    self.signs.append((d, '=='))
                    if len(d.num) == 1:
                        (mm, _c), = d.num.items()
                        live = [i for i, e in mm if not self.atom_pos(i)]
                        if len(live) == 1 and self.alg.atoms[live[0]].kind == 'sqrt':
                            self.signs.append((self.alg.atoms[live[0]].data, '=='))
        for d, kind in self.signs:
            c = pconst(d.num)
            if c is not None and not d.den:
                if (kind == '>' and c <= 0) or (kind == '>=' and c < 0) or (kind == '!=' and c == 0) or \
                        (kind == '==' and c != 0):
                    self.infeasible = True

    def never_positive(self, r):
        """r is minus a sum of even powers and absolute values (so r >= 0 makes it zero)"""
        def even(p, sign):
            return all(sign * c > 0 and all(e % 2 == 0 or self.alg.atoms[i].kind in ('sqrt', 'abs') for i, e in m)
                       for m, c in p.items())
        return bool(r.num) and () not in r.num and even(r.num, -1) and all(e % 2 == 0 or even(p, 1) for p, e in r.den.values())

    def solve_zero(self, p, level=0):
        """p == 0: derive variable substitutions (variables forced to zero / solved linearly)."""
        if not p or level > 4:
            return None
        al_ = self.alg
        # c - c x^2 for a component x of a unit vector: the other two components vanish
        if len(p) == 2 and () in p:
            (m, c), = [(m, c) for m, c in p.items() if m]
            if len(m) == 1 and m[0][1] == 2 and c == -p[()]:
                v = al_.atoms[m[0][0]]
                fam = al_.units.get(v.data.val[0]) if v.kind == 'var' else None
                if fam:
                    out = {tm.var(nm, *v.data.val[1]).id: tm.ZERO for nm in fam if nm != v.data.val[0]}
                    out = {k: t for k, t in out.items() if k not in self.subs}
                    if out:
                        return out
        # sum of nonnegative monomials
        if len(p) >= 1 and () not in p:
            sg = None
            ok = True
            for m, c in p.items():
                s = 1 if c > 0 else -1
                if sg is None:
                    sg = s
                if s != sg:
                    ok = False
                for i, e in m:
                    if e % 2 and not (al_.atoms[i].kind in ('sqrt', 'abs')):
                        if len(p) > 1:
                            ok = False
            if ok:
                out = {}
                for m, c in p.items():
                    live = [i for i, e in m if not self.atom_pos(i)]
                    if len(live) != 1:
                        continue
                    a = al_.atoms[live[0]]
                    if a.kind == 'var':
                        out[a.data.id] = tm.ZERO
                    elif a.kind in ('sqrt', 'abs'):
                        sub = self.solve_zero(a.data.num, level + 1)
                        if sub:
                            out.update(sub)
                if out:
                    return out
        # a variable that occurs linearly with a constant coefficient
        for m, c in sorted(p.items(), key=str):
            if len(m) == 1 and m[0][1] == 1 and al_.atoms[m[0][0]].kind == 'var':
                i = m[0][0]
                if al_.atoms[i].data.val[0].startswith('#'):
                    continue
                if sum(1 for mm in p if any(x[0] == i for x in mm)) == 1:
                    rest = {mm: v for mm, v in p.items() if mm != m}
                    t = self.poly_term(rest)
                    if t is not None:
                        return {al_.atoms[i].data.id: tm.mul(tm.const(Fraction(-1) / c), t)}
        return None

    def poly_term(self, p):
        out = tm.ZERO
        for m, c in p.items():
            t = tm.const(c)
            for i, e in m:
                a = self.alg.atoms[i]
                if a.kind == 'var':
                    x = a.data
                elif a.kind == 'pi':
                    x = tm.PI
                else:
                    return None
                t = tm.mul(t, tm.power(x, e))
            out = tm.add(out, t)
        return out

    # ------------------------------------------------------------ signs
    def atom_pos(self, i, strict=True):
        """structurally known sign of an atom (>0, or >=0)"""
        key = ('atom', i, strict)
        if key in self.pmemo:
            return self.pmemo[key]
        self.pmemo[key] = False
        a = self.alg.atoms[i]
        r = False
        if a.kind == 'pi':
            r = True
        elif a.kind in ('sqrt',) or a.kind.startswith('root'):
            r = True if not strict else bool(self.struct_pos_rat(a.data if isinstance(a.data, Rat) else a.data[0], True))
        elif a.kind == 'abs' and not strict:
            r = True
        elif a.kind in ('cos', 'sin'):
            ns = self.numeric_sign({((i, 1),): 1})
            if '-' not in ns and not (strict and '0' in ns):
                half = al.rscale(self.alg.pi(), Fraction(1, 2))
                if a.kind == 'cos':
                    r = self.positive(rsub(half, a.data), strict) and self.positive(al.radd(half, a.data), strict)
                else:
                    r = self.positive(a.data, strict) and self.positive(rsub(self.alg.pi(), a.data), strict)
        elif a.kind == 'var' and a.data.val[0] == '#N':
            r = True
        if not r:
            one = {((i, 1),): 1}
            for d, kind in self.signs:
                if d.den:
                    continue
                if kind in ('>', '>=') and len(d.num) <= 2:
                    c = d.num.get(((i, 1),))
                    if c is not None and c > 0:
                        rest = {m: v for m, v in d.num.items() if m != ((i, 1),)}
                        k = pconst(rest)
                        if k is not None and (k < 0 or (k == 0 and (kind == '>' or not strict))):
                            r = True
                            break
        self.pmemo[key] = r
        return r

    def struct_pos_poly(self, p, strict):
        if not p:
            return not strict
        some = False
        for m, c in p.items():
            if c < 0:
                return False
            st = True
            for i, e in m:
                if e % 2 == 0:
                    if not self.atom_pos(i):
                        st = False
                elif not self.atom_pos(i):
                    st = False
                    if not self.atom_pos(i, False):
                        return False
            some = some or st
        return some or not strict

    def fact_match(self, p, strict):
        """p (up to a positive constant) equal to a hypothesis"""
        extra = [] if strict else [(r, '>=') for r in self.alg.nonneg_facts + self.sos_facts(patoms(p))]
        for d, kind in self.signs + extra:
            if kind not in ('>', '>='):
                continue
            if strict and kind != '>':
                continue
            if d.den:
                if not all(len(q) == 1 and all(self.atom_pos(i) for i in patoms(q)) for q, _e in d.den.values()):
                    continue
            q = d.num
            if len(q) != len(p) or not q:
                q = self.alg.reduce(d.num).num
                if len(q) != len(p) or not q:
                    continue
            m = next(iter(q))
            if m not in p:
                continue
            c = Fraction(p[m]) / q[m]
            if c > 0 and all(mm in p and p[mm] == c * v for mm, v in q.items()):
                return True
        return False

    def sos_facts(self, atoms):
        """|u x v|^2, |u - v|^2, |u + v|^2 >= 0 for pairs of unit vectors in play (Cauchy-Schwarz)"""
        fams = []
        for key in list(self.alg.bykey):
            if isinstance(key, tuple) and key[0] == 'unit':
                vs = [self.alg.bykey.get(('var', tm.var(nm, *key[2]).id)) for nm in key[1]]
                if all(v is not None for v in vs) and any(v.idx in atoms for v in vs):
                    fams.append(tuple(self.alg.atom_rat(v) for v in vs))
        out = []
        for i, u in enumerate(fams):
            for v in fams[i + 1:]:
                key = ('sos',) + tuple(self.alg.ratkey(x) for x in u + v)
                hit = self.pmemo.get(key)
                if hit is None:
                    d = al.RZERO
                    for a, b in zip(u, v):
                        d = al.radd(d, rmul(a, b))
                    hit = [self.alg.rreduce(x) for x in (rsub(al.RONE, rmul(d, d)), rsub(al.RONE, d),
                                                         al.radd(al.RONE, d), rmul(d, d))]
                    self.pmemo[key] = hit
                out += hit
        return out

    def square_trick(self, p, strict):
        """c - D >= 0 follows from c >= 0 and c^2 - D^2 >= 0"""
        c = p.get(())
        if c is None or c <= 0 or len(p) > 40:
            return False
        D = al.pscale({m: v for m, v in p.items() if m}, -1)
        q = self.alg.reduce(al.padd({(): c * c}, al.pmul(D, D), -1))
        if not q.num:
            return not strict
        return self.struct_pos_rat(q, strict)

    def struct_pos_rat(self, r, strict):
        if not self.struct_pos_poly(r.num, strict) and not self.fact_match(r.num, strict):
            return False
        for p, e in r.den.values():
            if e % 2 and not self.struct_pos_poly(p, True) and not self.fact_match(p, True):
                return False
        return True

    def numeric_sign(self, p):
        """'+', '-', '0' if consistent at the samples, else None; '?' without samples"""
        signs = set()
        for k in range(len(self.samples)):
            s = mpmath.mpf(0)
            mag = mpmath.mpf(0)
            for m, c in p.items():
                t = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
                for i, e in m:
                    t *= self.alg.atoms[i].vals[k] ** e
                s += t
                mag += abs(t)
            if mpmath.isnan(s):
                continue
            if abs(s) <= mag * mpmath.mpf(10) ** -24:
                signs.add('0')
            else:
                signs.add('+' if s > 0 else '-')
        return signs

    def maybe_positive(self, r, strict):
        """positive() with little effort, where both answers are usable"""
        old, self.ms = self.ms, 700
        try:
            return self.positive(r, strict)
        finally:
            self.ms = old

    def positive(self, r, strict):
        """provably r > 0 (strict) or r >= 0"""
        if not r.num:
            return not strict
        key = ('pos', self.alg.ratkey(r), strict, self.ms)
        hit = self.pmemo.get(key)
        if hit is not None:
            return hit
        self.pmemo[key] = False      # recursion guard
        res = self._positive(r, strict)
        self.pmemo[key] = res
        return res

    def _positive(self, r, strict):
        red = self.alg.rreduce(r)
        if not red.num:
            return not strict
        c = pconst(red.num)
        if c is not None and not red.den:
            return c > 0
        if self.struct_pos_rat(r, strict) or self.struct_pos_rat(red, strict):
            return True
        # sign = sign(num) * product of the signs of odd denominators
        for cand in ((red,) if red.num == r.num else (r, red)):
            flip = 1
            ok = True
            extra = []
            for p, e in cand.den.values():
                if e % 2 == 0:
                    continue
                s = self.poly_sign(p)
                if s is None:
                    ok = False
                    break
                flip *= s
            if not ok:
                # sign(num * den)
                num = cand.num
                for p, e in cand.den.values():
                    if e % 2:
                        num = al.pmul(num, p)
                if self.poly_pos(self.alg.reduce(num).num, strict):
                    return True
                continue
            num = cand.num if flip > 0 else al.pscale(cand.num, -1)
            if self.poly_pos(num, strict):
                return True
        return False

    def poly_sign(self, p):
        """+1 / -1 strict sign or None"""
        ns = self.numeric_sign(p)
        if '0' in ns or len(ns) > 1:
            return None
        if (not ns or ns == {'+'}) and self.poly_pos(p, True):
            return 1
        if (not ns or ns == {'-'}) and self.poly_pos(al.pscale(p, -1), True):
            return -1
        return None

    def poly_pos(self, p, strict):
        key = ('pp', al.pkey(p), strict, self.ms)
        hit = self.pmemo.get(key)
        if hit is not None:
            return hit
        self.pmemo[key] = False
        r = self._poly_pos(p, strict)
        self.pmemo[key] = r
        return r

    def _poly_pos(self, p, strict):
        c = pconst(p)
        if c is not None:
            return c > 0 or (c == 0 and not strict)
        ns = self.numeric_sign(p)
        if '-' in ns or (strict and '0' in ns):
            return False
        if self.struct_pos_poly(p, strict) or self.fact_match(p, strict) or self.square_trick(p, strict):
            return True
        # factor out monomials with known sign
        co, facs = al._split_factor(p)
        if len(facs) > 1:
            sg = 1 if co > 0 else -1
            st = strict
            rest = None
            for q, e in facs:
                if len(q) == 1:
                    i = next(iter(patoms(q)))
                    if e % 2 == 0:
                        if strict and not self.atom_ne0(i):
                            rest = 'bad'
                        continue
                    if self.atom_pos(i, strict):
                        continue
                    s = self.z3_atom_sign(i, strict)
                    if s is None:
                        rest = 'bad'
                        break
                    sg *= s
                else:
                    rest = q
            if rest != 'bad':
                if rest is None:
                    return sg > 0
                if self.poly_pos(rest if sg > 0 else al.pscale(rest, -1), strict):
                    return True
        return self.smt_pos(p, strict)

    def atom_ne0(self, i):
        return self.atom_pos(i) or self.z3_atom_sign(i, True) is not None

    def z3_atom_sign(self, i, strict):
        p = {((i, 1),): 1}
        ns = self.numeric_sign(p)
        if '-' not in ns and self.smt_pos(p, strict):
            return 1
        if '+' not in ns and self.smt_pos(al.pscale(p, -1), strict):
            return -1
        return None

    # ------------------------------------------------------------ SMT
    def smt_pos(self, p, strict):
        """hyps |- p > 0 (strict) or p >= 0"""
        if self.linear(p, strict):
            return True
        return self.smt(lambda enc: (enc.poly(p) <= 0) if strict else (enc.poly(p) < 0), [p])

    def linear(self, p, strict):
        """p > 0 / p >= 0 as a linear consequence of the facts, monomials taken as independent unknowns"""
        import z3
        if len(p) > 80 or not self.signs:
            return False
        red = self.alg.reduce(p)
        if not red.den:
            p = red.num
        vs = {}

        def lin(q):
            terms = []
            for m, c in q.items():
                k = z3.Q(Fraction(c).numerator, Fraction(c).denominator)
                if not m:
                    terms.append(k)
                    continue
                if m not in vs:
                    vs[m] = z3.Real('m%d' % len(vs))
                terms.append(k * vs[m])
            return z3.Sum(terms) if terms else z3.RealVal(0)
        s = z3.Solver()
        s.set('timeout', 1000)
        n = 0
        atoms = patoms(p)
        for d, kind in self.signs:
            num = d.num
            for q, e in d.den.values():
                if e % 2:
                    num = al.pmul(num, q)
            if len(num) > 60 or not patoms(num) & atoms or kind == '!=':
                continue
            x = lin(num)
            s.add(x > 0 if kind == '>' else x >= 0 if kind == '>=' else x == 0)
            n += 1
        if not n:
            return False
        g = lin(p)
        for m, x in list(vs.items()):
            if all(e % 2 == 0 for _i, e in m):
                s.add(x >= 0)
        s.add(g <= 0 if strict else g < 0)
        t0 = time.time()
        r = s.check()
        STATS['z3_s'] += time.time() - t0
        if r == z3.unsat:
            STATS['z3'] += 1
            self.backend = 'z3'
            return True
        return False

    def smt(self, goal_neg, polys, timeout=None):
        import z3
        enc = Encoder(self)
        g = goal_neg(enc)
        cons = enc.closure(polys)
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', timeout or self.ms or Z3_MS)
        s.add(*cons)
        s.add(g)
        t0 = time.time()
        r = s.check()
        STATS['z3_s'] += time.time() - t0
        if r == z3.unsat:
            STATS['z3'] += 1
            self.backend = 'z3'
            return True
        if r == z3.unknown:
            t0 = time.time()
            ok = cvc5_unsat(s.to_smt2(), timeout or self.ms or Z3_MS)
            STATS['cvc5_s'] += time.time() - t0
            if ok:
                STATS['cvc5'] += 1
                self.backend = 'cvc5'
                return True
        return False

    # ------------------------------------------------------------ conditions
    def decide(self, c):
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        c = self.sub(c)
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        if c.id in self.facts:
            return True
        if tm.bnot(c).id in self.facts:
            return False
        hit = self.dmemo.get(c.id)
        if hit is not None:
            return None if hit == 'open' else hit
        self.dmemo[c.id] = 'open'
        r = self._decide(c)
        self.dmemo[c.id] = 'open' if r is None else r
        return r

    def simplify_bool(self, c):
        """c with its decided parts replaced by constants"""
        r = self.decide(c)
        if r is not None:
            return tm.TRUE if r else tm.FALSE
        c = self.sub(c)
        if c.op == 'not':
            return tm.bnot(self.simplify_bool(c.args[0]))
        if c.op == 'and':
            return tm.band(self.simplify_bool(c.args[0]), self.simplify_bool(c.args[1]))
        if c.op == 'bite':
            k = self.simplify_bool(c.args[0])
            if k is tm.TRUE or k is tm.FALSE:
                return self.simplify_bool(c.args[1] if k is tm.TRUE else c.args[2])
            return tm.ite(k, self.simplify_bool(c.args[1]), self.simplify_bool(c.args[2]))
        return c

    def _decide(self, c):
        if c.op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else (not r)
        if c.op == 'and':
            a = self.decide(c.args[0])
            if a is False:
                return False
            b = self.decide(c.args[1])
            if b is False:
                return False
            if a and b:
                return True
            return None
        if c.op == 'bite':
            k = self.decide(c.args[0])
            if k is None:
                return None
            return self.decide(c.args[1] if k else c.args[2])
        if c.op == 'ex':
            return self.decide(c.args[0])
        if c.op == 'bvar':
            return None
        # numeric guidance
        seen = set()
        for env in self.samples:
            try:
                seen.add(bool(tm.evaluate(c, env, None, self.th.ufs)))
            except (KeyError, tm.Undefined):
                pass
        if len(seen) > 1:
            return None
        try:
            a, b = self.alg.rat(c.args[0]), self.alg.rat(c.args[1])
        except NeedSplit:
            return None
        except Undef:
            return False
        d = self.alg.rreduce(rsub(b, a))
        if c.op == 'eq':
            if (True in seen or not seen):
                if not d.num:
                    return True
                if self.zero_by_fact(d):
                    return True
            if True not in seen:
                if not d.num:
                    return True
                if self.nonzero(d):
                    return False
            return None
        strict = c.op == 'lt'
        if False not in seen and self.positive(d, strict):
            return True
        if True not in seen and self.positive(rneg(d), not strict):
            return False
        return None

    def zero_by_fact(self, d):
        return False

    def nonzero(self, d):
        if not d.num:
            return False
        for q, kind in self.signs:
            if kind == '!=':
                z = self.alg.rreduce(q)
                if z.num and len(z.num) == len(d.num):
                    m = next(iter(z.num))
                    if m in d.num:
                        k = Fraction(d.num[m]) / z.num[m]
                        if all(mm in d.num and d.num[mm] == k * v for mm, v in z.num.items()):
                            return True
        # product of factors
        co, facs = al._split_factor(d.num)
        if len(facs) > 1:
            return all(self.nonzero(Rat(p)) for p, _e in facs)
        if len(d.num) == 1:
            i = next(iter(patoms(d.num)), None)
            if i is None:
                return True
            a = self.alg.atoms[i]
            if a.kind == 'sqrt':
                return self.nonzero(self.alg.rreduce(a.data))
            if a.kind == 'abs':
                return self.nonzero(a.data)
        r = Rat(d.num)
        ns = self.numeric_sign(d.num)
        if '0' in ns:
            return False
        if '-' not in ns and self.positive(r, True):
            return True
        if '+' not in ns and self.positive(rneg(r), True):
            return True
        if len(ns) == 2:
            return self.smt(lambda enc: enc.poly(d.num) == 0, [d.num])
        return False

    # ------------------------------------------------------------ feasibility
    def is_infeasible(self):
        if self.infeasible:
            return True
        if self.samples:
            return False
        return self.smt(lambda enc: enc.true(), [d.num for d, _k in self.signs], timeout=3000)


class Encoder(object):
    def __init__(self, br):
        import z3
        self.z3 = z3
        self.br = br
        self.alg = br.alg
        self.vars = {}

    def true(self):
        return self.z3.BoolVal(True)

    def v(self, i):
        if i not in self.vars:
            self.vars[i] = self.z3.Real('x%d' % i)
        return self.vars[i]

    def num(self, c):
        c = Fraction(c)
        return self.z3.RealVal(str(c.numerator)) if c.denominator == 1 else self.z3.Q(c.numerator, c.denominator)

    def poly(self, p):
        s = []
        for m, c in sorted(p.items()):
            t = self.num(c) if c != 1 or not m else None
            for i, e in m:
                for _ in range(e):
                    t = self.v(i) if t is None else t * self.v(i)
            s.append(t)
        return self.z3.Sum(s) if len(s) > 1 else (s[0] if s else self.num(0))

    def closure(self, polys):
        z3 = self.z3
        need = set()
        for p in polys:
            need |= patoms(p)
        done = set()
        cons = []
        facts = list(self.br.signs)
        used = set()
        while True:
            todo = need - done
            if not todo:
                # unit vectors: the length relation of a component in use
                grew = False
                for i, (pw, rep) in list(self.alg.rules.items()):
                    if i not in need and (self.alg.atoms[i].kind in ('var', 'cut') or i in self.alg.restated) and \
                            patoms(rep.num) & need:
                        need.add(i)
                        grew = True
                if grew:
                    continue
                # hypotheses that share an atom and add no unrelated ones
                for n, (d, kind) in enumerate(facts):
                    if n in used:
                        continue
                    at = patoms(d.num)
                    for q, _e in d.den.values():
                        at |= patoms(q)
                    if at & need or not at:
                        used.add(n)
                        cons.append(self.fact(d, kind))
                        if at - need:
                            need |= at
                            grew = True
                if not grew:
                    break
                continue
            for i in todo:
                done.add(i)
                a = self.alg.atoms[i]
                x = self.v(i)
                if i in self.alg.rules:
                    pw, rep = self.alg.rules[i]
                    lhs = {((i, pw),): 1}
                    D = al.den_poly(rep.den)
                    cons.append(self.poly(al.pmul(lhs, D)) == self.poly(rep.num))
                    for q, _e in rep.den.values():
                        cons.append(self.poly(q) != 0)
                        need |= patoms(q)
                    need |= patoms(rep.num)
                if a.kind in ('sqrt', 'abs') or a.kind.startswith('root'):
                    cons.append(x >= 0)
                elif a.kind == 'pi':
                    cons.append(x > z3.Q(314159265, 100000000))
                    cons.append(x < z3.Q(314159266, 100000000))
                elif a.kind in ('atan2', 'asin', 'acos', 'atan', 'mod'):
                    cons += self.angle_bounds(a, x, need)
                if i in self.alg.unfold:
                    dd = self.alg.unfold[i]
                    cons.append(self.poly({((i, 1),): 1}) * self.poly(al.den_poly(dd.den)) == self.poly(dd.num))
                    need |= patoms(dd.num)
                    for q, _e in dd.den.values():
                        need |= patoms(q)
                if a.kind == 'abs':
                    need |= patoms(a.data.num)
                    for q, _e in a.data.den.values():
                        need |= patoms(q)
                    if not a.data.den:
                        y = self.poly(a.data.num)
                        cons.append(z3.Or(x == y, x == -y))
        # denominators assumed non-zero are separate obligations (definedness)
        for r in self.alg.nonneg_facts + self.br.sos_facts(done):
            at = patoms(r.num)
            for q, _e in r.den.values():
                at |= patoms(q)
            if at <= done:
                cons.append(self.fact(r, '>='))
        return cons

    def pi(self, need):
        r = self.alg.pi()
        (m, _c), = r.num.items()
        need.add(m[0][0])
        return self.v(m[0][0])

    def angle_bounds(self, a, x, need):
        z3 = self.z3
        pi = self.pi(need)
        out = []
        br = self.br
        if a.kind == 'atan2':
            y, xx = a.data
            out += [x <= pi, x > -pi]
            if br.maybe_positive(y, True):
                out += [x > 0]
                out += [x < pi]
            elif br.maybe_positive(y, False):
                out += [x >= 0]
            elif br.maybe_positive(rneg(y), True):
                out += [x < 0, x > -pi]
            if br.maybe_positive(xx, True):
                out += [2 * x < pi, 2 * x > -pi]
            elif br.maybe_positive(xx, False):
                out += [2 * x <= pi, 2 * x >= -pi]
        elif a.kind == 'asin':
            out += [2 * x <= pi, 2 * x >= -pi]
            if br.maybe_positive(a.data[0], False):
                out += [x >= 0]
            elif br.maybe_positive(rneg(a.data[0]), False):
                out += [x <= 0]
        elif a.kind == 'acos':
            out += [x <= pi, x >= 0]
        elif a.kind == 'atan':
            out += [2 * x < pi, 2 * x > -pi]
        elif a.kind == 'mod':
            m = a.data[1]
            if not m.den and br.maybe_positive(m, True):
                need |= patoms(m.num)
                out += [x >= 0, x < self.poly(m.num)]
        return out

    def fact(self, d, kind):
        z3 = self.z3
        num = d.num
        for q, e in d.den.values():
            if e % 2:
                num = al.pmul(num, q)
        n = self.poly(num)
        if kind == '>':
            return n > 0
        if kind == '>=':
            return n >= 0
        if kind == '!=':
            return self.poly(d.num) != 0
        return self.poly(d.num) == 0


def cvc5_unsat(smt2, ms):
    import shutil
    exe = shutil.which('cvc5')
    if not exe:
        return False
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic QF_NRA)\n' + smt2)
        p = subprocess.run([exe, '--tlimit=%d' % ms, path], capture_output=True, text=True, timeout=ms / 1000.0 + 5)
        return p.stdout.strip().splitlines()[:1] == ['unsat']
    except Exception:
        return False
    finally:
        os.unlink(path)


# ====================================================================== proving
class Result(object):
    def __init__(self):
        self.leaves = 0
        self.backends = {}
        self.infeasible = 0

    def note(self, b):
        self.leaves += 1
        self.backends[b] = self.backends.get(b, 0) + 1


def propositional(theory, goal, hyps):
    """the goal follows from the hypotheses by propositional reasoning over its atomic parts"""
    if goal is tm.TRUE or goal.op not in ('not', 'and', 'bite', 'ex', 'le', 'lt', 'eq'):
        return False             # left to the simplifier proper
    if canon.is_true(goal):
        return 'ac-normal-form'
    hyps = [h for h in hyps if h.op in ('not', 'and', 'bite', 'ex') or h is goal or goal.op not in ('le', 'lt', 'eq')]
    if any(h is goal for h in hyps):
        return 'hypothesis'
    if goal.op in ('le', 'lt', 'eq') or not hyps:
        return False
    import z3
    atoms, memo = {}, {}

    def enc(t):
        r = memo.get(t.id)
        if r is None:
            if t is tm.TRUE or t is tm.FALSE:
                r = z3.BoolVal(t is tm.TRUE)
            elif t.op == 'not':
                r = z3.Not(enc(t.args[0]))
            elif t.op == 'and':
                r = z3.And([enc(a) for a in t.args])
            elif t.op == 'bite':
                r = z3.If(*[enc(a) for a in t.args])
            else:
                sign, k = canon.boolean(t)
                if k == canon.TRUE_K:
                    r = z3.BoolVal(sign)
                else:
                    r = atoms.setdefault(k, z3.Bool('b%d' % k))
                    if not sign:
                        r = z3.Not(r)
            memo[t.id] = r
        return r
    g = enc(goal)
    mine = set(atoms)
    s = z3.Solver()
    s.set('timeout', 1000)
    for h in hyps:
        s.add(enc(h))
    if not mine & set(atoms):
        return False
    s.add(z3.Not(g))
    t0 = time.time()
    r = s.check()
    STATS['z3_s'] += time.time() - t0
    if r == z3.unsat:
        STATS['z3'] += 1
        return 'z3-propositional'
    return False


def conditions(t, out, seen):
    """atomic conditions on which the value of a term depends, outermost first"""
    todo = [t]
    while todo:
        u = todo.pop(0)
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ('ite', 'bite'):
            atoms, st = [], [u.args[0]]
            while st:
                c = st.pop()
                if c.op in ('not', 'and', 'bite'):
                    st.extend(c.args)
                elif c.op in ('lt', 'le', 'eq', 'bvar', 'ex'):
                    atoms.append(c)
            out.extend(atoms)
        if u.op not in ('sum', 'ex'):
            todo.extend(u.args)
    return out


def relational(goal, deadline, depth=8):
    """equality of two evaluations of the same operations: case split on common conditions, compare normal forms"""
    if goal is tm.TRUE or canon.is_true(goal):
        return True
    if goal is tm.FALSE or depth == 0 or time.time() > deadline:
        return False
    cs = conditions(goal, [], set())
    if not cs:
        return False
    groups = {}
    for c in cs:
        sign, k = canon.boolean(c)
        if k != canon.TRUE_K:
            groups.setdefault(k, []).append((sign, c))
    if not groups:
        return False
    k = max(groups, key=lambda q: len(set(c.id for _, c in groups[q])))
    for v in (True, False):
        sub = {c.id: (tm.TRUE if sign == v else tm.FALSE) for sign, c in groups[k]}
        if not relational(tm.subst(goal, sub), deadline, depth - 1):
            return False
    return True


def quantified(t, out):
    """the outermost quantified parts of a condition"""
    if t.op == 'ex':
        out[t.id] = t
    elif t.op in ('not', 'and', 'bite'):
        for a in t.args:
            quantified(a, out)
    return out


def same_quantified(theory, goal, hyps, deadline):
    """the goal with its quantified parts replaced by those of the hypotheses that hold for the same columns"""
    mine, theirs = quantified(goal, {}), {}
    if not mine:
        return goal
    for h in hyps:
        quantified(h, theirs)
    memo = theory.__dict__.setdefault('exmemo', {})
    sub = {}
    for g in mine.values():
        if g.id in theirs:
            continue
        for h in theirs.values():
            k = (g.id, h.id)
            if k not in memo:
                a, b = g.args[0], h.args[0]
                memo[k] = False
                try:
                    prove(theory, tm.ite(a, b, tm.bnot(b)), (), 8, max(0.5, min(4.0, deadline - time.time())))
                    memo[k] = True
                except Unproved:
                    pass
            if memo[k]:
                sub[g.id] = h
                break
        else:
            theirs[g.id] = g
    return tm.subst(goal, sub) if sub else goal


def comparisons(t, out):
    """the outermost comparisons of a condition"""
    st, seen = [t], set()
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ('not', 'and', 'bite'):
            st.extend(u.args)
        elif u.op in ('le', 'lt', 'eq'):
            out[u.id] = u
    return out


def margin(theory, c):
    """numerical values of the difference of the two sides of a comparison (only selects candidates)"""
    out = []
    for env in theory.samples[:6]:
        try:
            x, y = [tm.evaluate(q, env, None, theory.ufs) for q in c.args]
            d = y - x
            out.append(d if mpmath.isfinite(d) else None)
        except Exception:
            out.append(None)
    return out


def same_atoms(theory, goal, hyps, deadline):
    """the goal with comparisons that are written differently but equivalent made one (each equivalence is proved)"""
    mine = comparisons(goal, {})
    if not theory.samples or goal.op not in ('bite', 'and', 'not') or len(mine) < 2 or theory.__dict__.get('in_atoms'):
        return goal
    pool = {}
    for h in hyps:
        comparisons(h, pool)
    if len(mine) + len(pool) > 60:
        return goal
    end = min(deadline, time.time() + 25 * BUDGET_SCALE)
    memo = theory.__dict__.setdefault('atommemo', {})
    vals = theory.__dict__.setdefault('atomvals', {})

    def value(c):
        if c.id not in vals:
            vals[c.id] = margin(theory, c)
        return vals[c.id]
    classes = list(pool.values())
    sub = {}
    for g in mine.values():
        u = value(g)
        if any(h is g for h in classes):
            continue
        for h in classes:
            v = value(h)
            r = [a / b for a, b in zip(u, v) if a is not None and b is not None and b != 0]
            if len(r) < 3 or any(abs(q - r[0]) > 1e-12 * abs(r[0]) for q in r) or abs(r[0]) < 1e-6:
                continue
            k = (g.id, h.id)
            if k not in memo and time.time() < end:
                memo[k] = None
                for w in (h, tm.bnot(h)):
                    if (w is h) != (r[0] > 0 or g.op == 'eq'):
                        continue
                    theory.in_atoms = True
                    try:
                        prove(theory, tm.ite(g, w, tm.bnot(w)), (), 10, max(0.5, min(6.0, end - time.time())))
                        memo[k] = w
                        break
                    except Unproved:
                        pass
                    finally:
                        theory.in_atoms = False
            if memo.get(k) is not None:
                sub[g.id] = memo[k]
                break
        else:
            classes.append(g)
    return tm.subst(goal, sub) if sub else goal


def prove(theory, goal, hyps=(), max_depth=14, budget=60.0):
    """Raises Unproved, or returns a Result (number of discharged leaves per back end)."""
    deadline = time.time() + budget * BUDGET_SCALE
    key = tuple(h.id for h in hyps)
    res = theory.proved.get((key, goal.id))
    if res is not None:
        return res
    gid = goal.id
    goal = same_quantified(theory, goal, hyps, deadline)
    how = propositional(theory, goal, list(theory.hyps) + list(hyps))
    if not how and theory.relational and relational(goal, min(deadline, time.time() + 10)):
        how = 'ac-normal-form'
    if not how and not theory.relational:
        g = same_atoms(theory, goal, list(theory.hyps) + list(hyps), deadline)
        if g is not goal:
            goal = g
            how = propositional(theory, goal, list(theory.hyps) + list(hyps))
    if how:
        res = Result()
        res.note(how)
        theory.proved[(key, gid)] = res
        return res
    for _ in range(6):
        try:
            res = Result()
            al.DEADLINE[0] = deadline
            _prove(theory, goal, list(theory.hyps) + list(hyps), None, res, 0, max_depth, deadline, key)
            theory.proved[(key, gid)] = res
            return res
        except Restart:
            theory.root = None
            continue
        except Unproved as e:
            reused, theory.root = theory.root is not None and theory.root[2], None
            if reused and e.refuted is None:
                continue                     # once more, in a fresh branch
            raise
        except al.TimeUp:
            theory.root = None
            raise Unproved('time budget exhausted', hyps)
        except BaseException:
            theory.root = None
            raise
        finally:
            al.DEADLINE[0] = None
    raise Unproved('angle base did not stabilise')


def _prove(theory, goal, hyps, subs, res, depth, max_depth, deadline, key=None):
    if goal is tm.TRUE:
        res.note('simplifier')
        return
    if time.time() > deadline:
        raise Unproved('time budget exhausted', hyps)
    if key is not None and theory.root is not None and theory.root[0] == key:
        br = theory.root[1]
        theory.root = (key, br, True)
    else:
        br = Branch(theory, hyps, subs)
        if key is not None:
            theory.root = (key, br, False)
    br.backend = None
    _prove_in(br, goal, hyps, res, depth, max_depth, deadline)


def _prove_in(br, goal, hyps, res, depth, max_depth, deadline):
    theory = br.th
    if br.infeasible:
        res.infeasible += 1
        res.note('infeasible')
        return
    g = br.sub(goal)
    if g is tm.TRUE:
        res.note('simplifier')
        return
    if g.op == 'and':
        # conjuncts separately (same branch)
        parts = flatten(g, [])
        for p in parts:
            _prove_in(br, p, hyps, res, depth, max_depth, deadline)
        return
    if time.time() > deadline:
        raise Unproved('time budget exhausted', hyps)
    if g.op == 'not' and g.args[0].op == 'and':
        a, b = g.args[0].args
        for x, y in ((a, b), (b, a)):
            # not x or not y : assume x, show not y  (try a decided disjunct first)
            if br.decide(x) is False:
                res.note(br.backend or 'normal-form')
                return
        _prove(theory, tm.bnot(b), hyps + [a], br.subs, res, depth + 1, max_depth, deadline)
        return
    if g.op == 'bite':
        c = g.args[0]
        d = br.decide(c)
        if d is None and c.op in ('and', 'not', 'bite'):
            c = br.simplify_bool(c)
            d = True if c is tm.TRUE else False if c is tm.FALSE else None
        if d is not None:
            return _prove_in(br, g.args[1] if d else g.args[2], hyps, res, depth, max_depth, deadline)
        _prove(theory, g.args[1], hyps + [c], br.subs, res, depth + 1, max_depth, deadline)
        _prove(theory, g.args[2], hyps + [tm.bnot(c)], br.subs, res, depth + 1, max_depth, deadline)
        return
    refute(br, goal, hyps)
    # a compound hypothesis that its parts contradict
    for h in br.hyps:
        q = br.sub(h.args[0] if h.op == 'not' else h)
        if q.op in ('and', 'bite'):
            v = br._decide(q)
            if v is not None and v != (h.op != 'not'):
                res.infeasible += 1
                res.note('infeasible')
                return
    short = theory.live() and not br.samples     # probably contradictory hypotheses: do not insist on the goal
    timed = False
    try:
        if short:
            al.DEADLINE[0] = min(deadline, time.time() + 2)
        if leaf(br, g, res):
            return
    except al.TimeUp:
        if not short or time.time() > deadline:
            raise
        timed = True
    except NeedSplit as e:
        al.DEADLINE[0] = deadline
        if depth >= max_depth:
            raise Unproved('case-split depth exceeded at ' + tm.show(e.cond, 3), hyps)
        c = simplest(br, e.cond)
        for h in (c, tm.bnot(c)):
            _prove(theory, goal, hyps + [h], br.subs, res, depth + 1, max_depth, deadline)
        return
    except Undef:
        pass
    finally:
        al.DEADLINE[0] = deadline
    if br.is_infeasible():
        res.infeasible += 1
        res.note('infeasible')
        return
    # a disjunctive hypothesis: split on one of its parts
    if depth < max_depth:
        for h in br.hyps:
            q = h.args[0] if h.op == 'not' else h
            if q.op == 'bite' or (q.op == 'and' and h.op == 'not'):
                c = simplest(br, q)
                if c.op in ('lt', 'le', 'eq') and br.decide(c) is None:
                    for k in (c, tm.bnot(c)):
                        _prove(theory, goal, hyps + [k], br.subs, res, depth + 1, max_depth, deadline)
                    return
        # a hypothesis about a value that depends on an undecided case
        for h in br.pending:
            q = h.args[0] if h.op == 'not' else h
            try:
                br.alg.rat(q.args[0])
                br.alg.rat(q.args[1])
            except NeedSplit as e:
                c = simplest(br, e.cond)
                if c.op in ('lt', 'le', 'eq') and br.decide(c) is None:
                    for k in (c, tm.bnot(c)):
                        _prove(theory, goal, hyps + [k], br.subs, res, depth + 1, max_depth, deadline)
                    return
            except Undef:
                pass
    if timed:
        br = Branch(theory, hyps, br.subs)     # afresh, without the limit
        br.backend = None
        try:
            if leaf(br, br.sub(goal), res):
                return
        except NeedSplit as e:
            if depth < max_depth:
                c = simplest(br, e.cond)
                for h in (c, tm.bnot(c)):
                    _prove(theory, goal, hyps + [h], br.subs, res, depth + 1, max_depth, deadline)
                return
        except Undef:
            pass
    raise Unproved('not provable: ' + tm.show(g, 5), hyps)


def refute(br, goal, hyps):
    for env in br.samples:
        try:
            if not tm.evaluate(goal, env, None, br.th.ufs):
                raise Unproved('refuted at a sample point', hyps, env)
        except (KeyError, tm.Undefined):
            pass


def simplest(br, c):
    """Pick an atomic, undecided condition inside c to split on."""
    c = br.sub(c)
    while c.op in ('not', 'and', 'bite'):
        for a in c.args:
            if br.decide(a) is None:
                c = a
                break
        else:
            return c
    if c.op in ('lt', 'le', 'eq'):
        try:
            br.alg.rat(c.args[0])
            br.alg.rat(c.args[1])
        except NeedSplit as e:
            return simplest(br, e.cond)
        except Undef:
            pass
    return c


def leaf(br, g, res):
    br.backend = None
    if g.id in br.facts:
        res.note('hypothesis')
        return True
    if g.op == 'eq':
        a, b = br.alg.rat(g.args[0]), br.alg.rat(g.args[1])
        d = rsub(a, b)
        ok = br.alg.is_zero(d)
        if not ok:
            ok = eq_extra(br, d)
        if ok:
            discharge_defined(br, res)
            res.note(br.backend or 'normal-form')
            return True
        return False
    if g.op in ('lt', 'le'):
        a, b = br.alg.rat(g.args[0]), br.alg.rat(g.args[1])
        d = rsub(b, a)
        ok = br.positive(d, g.op == 'lt')
        if ok:
            discharge_defined(br, res)
            res.note(br.backend or 'normal-form')
            return True
        return False
    if g.op == 'not':
        h = g.args[0]
        if h.op in ('lt', 'le') and not (h.args[0].hn or h.args[1].hn):
            return leaf(br, (tm.le if h.op == 'lt' else tm.lt)(h.args[1], h.args[0]), res)
        if h.op == 'eq':
            d = rsub(br.alg.rat(h.args[0]), br.alg.rat(h.args[1]))
            if br.nonzero(br.alg.rreduce(d)):
                discharge_defined(br, res)
                res.note(br.backend or 'normal-form')
                return True
            return False
        d = br.decide(h)
        if d is False:
            res.note(br.backend or 'normal-form')
            return True
        if d is None and h.op in ('and', 'ex', 'lt', 'le', 'bite'):
            raise NeedSplit(h) if h.op != 'ex' else NeedSplit(h.args[0])
        return False
    d = br.decide(g)
    if d:
        res.note(br.backend or 'normal-form')
        return True
    return False


def eq_extra(br, d):
    """Equalities that need more than the normal form."""
    alg = br.alg
    red = alg.rreduce(d)
    if not red.num:
        return True
    if alg.samples and alg.rvals_num(red):
        return False
    co, facs = al._split_factor(red.num)
    if len(facs) > 1:
        for p, _e in facs:
            if not (alg.samples and alg.rvals_num(Rat(p))) and eq_extra(br, Rat(p)):
                return True
        return False
    # angles equal modulo 2 pi and closer than 2 pi
    try:
        terms = alg.angle_terms(red)
        if terms and any(alg.atoms[b[0][0]].kind in ('atan2', 'asin', 'acos', 'atan', 'mod', 'pi')
                         for _c, b in terms if b):
            s, c = alg.sincos(red)
            if alg.is_zero(s) and (alg.is_zero(rsub(c, al.RONE)) or br.positive(c, True)):
                two_pi = al.rscale(alg.pi(), 2)
                if br.positive(rsub(two_pi, red), True) and br.positive(al.radd(two_pi, red), True):
                    br.backend = (br.backend or '') + 'angle'
                    return True
    except (Undef,):
        pass
    # SMT with hypotheses (equational facts not oriented as rules)
    if len(red.num) <= 80:
        return br.smt(lambda enc: enc.poly(red.num) != 0, [red.num])
    return False


def discharge_defined(br, res):
    for key, (kind, r, why, split) in list(br.alg.obl.items()):
        if key in br.pmemo and br.pmemo[key] == 'done':
            continue
        if kind == 'ne0':
            ok = br.nonzero(br.alg.rreduce(r))
        else:
            ok = br.positive(r, False)
        if not ok:
            if split is not None:
                for t in split.args:
                    c = tm.eq(t, tm.ZERO)
                    if br.decide(c) is None:
                        raise NeedSplit(c)
            # relative definedness: a sample where it fails is a refutation
            raise Unproved('definedness ({}) not provable: {}'.format(why, show_rat(br.alg, r)), br.raw)
        br.pmemo[key] = 'done'


def show_rat(alg, r, limit=6):
    def sp(p):
        out = []
        for m, c in list(p.items())[:limit]:
            out.append('{}{}'.format(c if c != 1 or not m else '', ''.join(
                '*' + alg.atoms[i].name + ('^%d' % e if e > 1 else '') for i, e in m)))
        if len(p) > limit:
            out.append('... %d terms' % len(p))
        return ' + '.join(out)
    s = '(' + sp(r.num) + ')'
    for p, e in r.den.values():
        s += '/(' + sp(p) + ')' + ('^%d' % e if e > 1 else '')
    return s
