"""Obligations of one contract configuration: symbolic execution of the real code + prover."""
import copy
import random
import sys
import time
import warnings
import numpy as np
import mpmath
from . import term as tm
from . import sym
from . import prove as pv
from .contract import (SymMath, sym_inputs, env_from_values, generic_values, Eq, Le, Iff, Implies, Shape, Check, Cut, Rule)
from .sym import SA, Explorer, Patched, Unsupported, S

mpf = mpmath.mpf


class Obligation(object):
    def __init__(self, name):
        self.name = name
        self.status = 'open'       # proved | failed | unknown
        self.backends = {}
        self.secs = 0.0
        self.why = ''
        self.env = None            # refuting sample
        self.path = ''

    def as_dict(self):
        return {'name': self.name, 'status': self.status, 'backends': self.backends, 'secs': round(self.secs, 3),
                'why': self.why[:400], 'path': self.path[:300]}


class Outcome(object):
    def __init__(self, con, cfg):
        self.con, self.cfg = con, cfg
        self.obls = []
        self.unsupported = None
        self.paths = 0
        self.cross = 0
        self.cross_bad = None
        self.secs = 0.0


def cfg_name(cfg):
    return ','.join('%s=%s' % (k, cfg[k]) for k in sorted(cfg))


def samples_for(con, cfg, n, seed):
    rng = random.Random(seed)
    N = cfg.get('N')
    ncols = {'N': 2, None: 1}.get(N, N)
    out = []
    tries = 0
    while len(out) < n and tries < 60 * n:
        tries += 1
        vals = generic_values(con, cfg, rng, ncols)
        out.append(env_from_values(con, cfg, vals, ncols))
    return out


def elements(x):
    """flat list of terms of an SA"""
    return list(x.d.reshape(-1))


def free_ok(t, tags):
    return all(g in tags for g in t.tags)


def goals_of(cl):
    """clause -> list of goal terms (one per entry)"""
    k = cl.kind
    if k == 'eq':
        ds, tg = sym.bcast([cl.got, cl.spec])
        ds = [d.reshape(-1) for d in ds]
        out = []
        for a, b in zip(*ds):
            if a.isbool or b.isbool:
                a, b = sym.as_bool(a), sym.as_bool(b)
                out.append(tm.ite(a, b, tm.bnot(b)))
            else:
                out.append(tm.eq(a, b))
        return out
    if k == 'le':
        ds, tg = sym.bcast([cl.a, cl.b])
        ds = [d.reshape(-1) for d in ds]
        return [(tm.lt if cl.strict else tm.le)(sym.as_real(a), sym.as_real(b)) for a, b in zip(*ds)]
    if k == 'iff':
        ds, tg = sym.bcast([cl.got, cl.spec])
        ds = [d.reshape(-1) for d in ds]
        out = []
        for a, b in zip(*ds):
            a, b = sym.as_bool(a), sym.as_bool(b)
            out.append(tm.ite(a, b, tm.bnot(b)))
        return out
    if k == 'implies':
        inner = goals_of(cl.clause)
        c = S(cl.cond)
        if c.d.size == 1:
            cs = [sym.as_bool(c.d.reshape(-1)[0])] * len(inner)
        else:
            cs = []
            base = elements(c)
            reps = len(inner) // len(base)
            cs = base * reps                 # conditions broadcast over leading axes
        return [tm.bnot(tm.band(a, tm.bnot(g))) if a is not tm.TRUE else g for a, g in zip(cs, inner)]
    raise TypeError(k)


def sa_list(x, out=None, depth=4):
    if out is None:
        out = []
    if isinstance(x, SA):
        out.append(x)
    elif isinstance(x, dict) and depth:
        for v in x.values():
            sa_list(v, out, depth - 1)
    elif isinstance(x, (list, tuple)) and depth:
        for v in x:
            sa_list(v, out, depth - 1)
    return out


def run_symbolic(con, cfg, nv, seed=1, budget=None, deadline=None, stubs=None, log=None, cross=None):
    """Returns Outcome.  Raises nothing except engine bugs."""
    t_start = time.time()
    oc = Outcome(con, cfg)
    budget = budget or con.budget
    try:
        return _run(oc, con, cfg, nv, seed, budget, deadline, stubs or {}, cross)
    except Unsupported as e:
        oc.unsupported = str(e)
        return oc
    finally:
        oc.secs = time.time() - t_start


class StubContext(object):
    """What contract stubs of callees need to know."""
    current = None

    def __init__(self, m):
        self.m = m
        self.pre = []          # (label, [goal terms])
        self.facts = []        # instances of postconditions of callees

    def require(self, label, cond):
        self.pre.append((label, sym.SA(sym.fmap(lambda t: tm.retag(t, {sym.ITER: 'j'}), S(cond).d), S(cond).tg)))

    def assume(self, cond):
        for t in elements(S(cond)):
            t = sym.as_bool(t)
            for t in ([tm.retag(t, {sym.ITER: g}) for g in ('j', tm.BOUND)] if sym.ITER in t.tags else [t]):
                if t not in self.facts:
                    self.facts.append(t)


def _run(oc, con, cfg, nv, seed, budget, deadline, stubs, cross):
    N = cfg.get('N')
    m = SymMath(N)
    with Patched(stubs):
        s, hyps, units = sym_inputs(con, cfg)
        if con.requires is not None:
            for c in con.requires(m, s, cfg):
                hyps += [sym.as_bool(t) for t in elements(S(c))]
        hyps += [tm.retag(h, {'j': tm.BOUND}) for h in list(hyps) if 'j' in h.tags]
        envs = samples_for(con, cfg, con.samples, seed * 7919 + 17)
        keep = []
        for env in envs:
            try:
                if all(tm.evaluate(h, env) for h in hyps):
                    keep.append(env)
            except (KeyError, tm.Undefined):
                pass
        hints = []
        if con.hints is not None:
            hints = [t for h in con.hints(m, s, cfg) for t in elements(S(h))]
        theory = pv.Theory(units=units, hyps=hyps, samples=keep, hints=hints, ufs=tm.UF_IMPL)
        if not keep:
            raise Unsupported('no sample satisfies the precondition (vacuous contract?)')
        theory.relational = con.relational
        prefix = con.name + '[' + cfg_name(cfg) + ']'
        if con.cuts is not None:
            theory = do_cuts(oc, prefix, con, cfg, m, s, theory, units, hyps, keep, hints, budget, deadline)
            hyps = theory.hyps
        branches = {}

        def decide(c, path):
            key = tuple(p.id for p in path)
            br = branches.get(key)
            if br is None:
                br = branches[key] = pv.Branch(theory, hyps + list(path))
            return br.decide(c)

        sc_holder = []

        def go():
            x = copy.deepcopy(s)
            snap = [(k, v, list(v.d.reshape(-1))) for k, v in x.items() if isinstance(v, SA)]
            sc = StubContext(m)
            StubContext.current = sc
            sym.LOOP.update(yielded=0, done=0)
            del sc_holder[:]
            sc_holder.append(sc)
            out = con.call(nv, x, cfg)
            return x, snap, out, sc
        ex = Explorer(decide)
        paths = ex.run(go)
        oc.paths = len(paths)
        feas = 0
        for pn, (path, kind, val, warned) in enumerate(paths):
            tag = prefix + ('/path%d' % pn if len(paths) > 1 else '')
            if path:
                # infeasible paths generate no obligations
                br = pv.Branch(theory, hyps + list(path))
                if br.infeasible or (not br.samples and br.is_infeasible()):
                    continue
            feas += 1
            if kind == 'raise':
                o = Obligation(tag + ': no exception')
                o.status, o.why, o.path = 'failed', '%s: %s' % (type(val).__name__, val), show_path(path)
                e = reach(theory, path)
                if e is not None:
                    o.env = e
                oc.obls.append(o)
                continue
            x, snap, out, sc = val
            if con.frame_check:
                o = Obligation(tag + ': frame (arguments unmodified)')
                bad = [k for k, v, d in snap if not (v.d.size == len(d) and
                                                     all(a is b for a, b in zip(v.d.reshape(-1), d)))]
                o.status = 'failed' if bad else 'proved'
                o.backends = {'simplifier': 1}
                if bad:
                    o.why = 'argument(s) %s modified' % ', '.join(bad)
                    o.env = reach(theory, path)
                oc.obls.append(o)
            m.warned = warned
            # contract clauses (evaluated outside of any path: no branching allowed)
            Explorer.current = None
            try:
                clauses = list(con.ensures(m, s, out, cfg))
            except Unsupported:
                raise
            except (ValueError, TypeError, IndexError, KeyError, AttributeError) as e:
                o = Obligation(tag + ': shape/type of the result')
                o.status, o.why = 'failed', 'result does not have the contracted form: %s: %s' % (type(e).__name__, e)
                o.env = reach(theory, path)
                oc.obls.append(o)
                continue
            path = list(path) + sc.facts
            for lab, cond in sc.pre if con.stub_pre else ():
                discharge(oc, tag + ': requires of ' + lab, [sym.as_bool(t) for t in elements(S(cond))], theory, path,
                          budget, deadline)
            for cl in clauses:
                lab = tag + ': ' + cl.label
                if cl.kind in ('shape', 'check'):
                    o = Obligation(lab)
                    if cl.kind == 'shape':
                        got = cl.got.shape if hasattr(cl.got, 'shape') else np.shape(cl.got)
                        want = tuple(m.N if q == 'N' else q for q in cl.shape)
                        ok = len(got) == len(want) and all(_dim_eq(a, b) for a, b in zip(got, want))
                        o.why = '' if ok else 'shape %r, contracted %r' % (got, want)
                    else:
                        ok = cl.ok
                        o.why = '' if ok else str(cl.info)
                    o.status = 'proved' if ok else 'failed'
                    o.backends = {'simplifier': 1}
                    if not ok:
                        o.env = reach(theory, path)
                    oc.obls.append(o)
                    continue
                try:
                    goals = goals_of(cl)
                except ValueError as e:
                    o = Obligation(lab)
                    o.status, o.why, o.env = 'failed', 'shape mismatch: %s' % e, reach(theory, path)
                    oc.obls.append(o)
                    continue
                discharge(oc, lab, goals, theory, path, budget, deadline)
        if not feas:
            raise Unsupported('no feasible path (vacuous contract?)')
        if cross is not None:
            cross(oc, theory, paths, con, cfg, s)
    return oc


def do_cuts(oc, prefix, con, cfg, m, s, theory, units, hyps, keep, hints, budget, deadline):
    """Lemmas about named intermediate values: proved in order, each with the earlier names abstracted."""
    cuts = []
    hyps = list(hyps)
    for c in con.cuts(m, s, cfg):
        if isinstance(c, Rule):
            th = pv.Theory(units=units, hyps=hyps, samples=keep, hints=hints, ufs=tm.UF_IMPL, cuts=cuts)
            reps = elements(S(c.value))
            mine = [q for q in cuts if q[0].rstrip('0123456789') == c.name]
            goals = [tm.eq(q[1], r) for q, r in zip(mine, reps)]
            discharge(oc, prefix + ': lemma ' + c.label, goals, th, [], budget, deadline)
            new = dict((q[0], (q[0], q[1], q[2], (1, r))) for q, r in zip(mine, reps))
            cuts = [new.get(q[0], q) for q in cuts]
            continue
        if not isinstance(c, Cut):
            th = pv.Theory(units=units, hyps=hyps, samples=keep, hints=hints, ufs=tm.UF_IMPL, cuts=cuts)
            goals = goals_of(c)
            discharge(oc, prefix + ': lemma ' + c.label, goals, th, [], budget, deadline)
            hyps = hyps + goals
            continue
        terms = elements(S(c.term))
        th = pv.Theory(units=units, hyps=hyps, samples=keep, hints=hints, ufs=tm.UF_IMPL, cuts=cuts)
        new = []
        for cl in c.facts:
            goals = goals_of(cl)
            discharge(oc, prefix + ': lemma ' + cl.label, goals, th, [], budget, deadline)
            new += goals
        rules = [None] * len(terms)
        if c.rule is not None:
            pw, rep = c.rule
            reps = elements(S(rep))
            goals = [tm.eq(tm.power(t, pw), r) for t, r in zip(terms, reps)]
            discharge(oc, prefix + ': lemma ' + c.name + '^%d' % pw, goals, th, [], budget, deadline)
            rules = [(pw, r) for r in reps]
        hyps = hyps + new
        cuts = cuts + [('%s%s' % (c.name, '' if len(terms) == 1 else i), t, c.unfold, r)
                       for i, (t, r) in enumerate(zip(terms, rules))]
    return pv.Theory(units=units, hyps=hyps, samples=keep, hints=hints, ufs=tm.UF_IMPL, cuts=cuts)


def _dim_eq(a, b):
    if isinstance(a, sym.SymDim) or isinstance(b, sym.SymDim):
        return isinstance(a, sym.SymDim) and isinstance(b, sym.SymDim)
    return a == b


def show_path(path):
    return ' & '.join(tm.show(p, 4) for p in path)


def reach(theory, path):
    """a sample that satisfies the path"""
    for env in theory.samples:
        try:
            if all(tm.evaluate(p, env, None, theory.ufs) for p in path):
                return env
        except (KeyError, tm.Undefined):
            pass
    return None


def discharge(oc, label, goals, theory, path, budget, deadline):
    o = Obligation(label)
    t0 = time.time()
    o.path = show_path(path)[:400]
    try:
        for g in goals:
            if any(str(q).startswith('#') for q in g.tags) or len(g.tags - {'j', 'k', tm.BOUND}):
                raise Unsupported('result mixes columns in a way the engine does not track')
            b = budget
            if deadline is not None:
                b = min(b, max(1.0, deadline - time.time()))
            r = pv.prove(theory, g, path, max_depth=oc.con.max_depth, budget=b)
            for k, v in r.backends.items():
                o.backends[k] = o.backends.get(k, 0) + v
        o.status = 'proved'
    except pv.Unproved as e:
        o.status = 'failed' if e.refuted is not None else 'unknown'
        o.why = e.why
        o.env = e.refuted
        o.hyps = e.hyps
        o.goal = g
    except (RuntimeError, RecursionError, ZeroDivisionError) as e:
        o.status = 'unknown'
        o.why = '%s: %s' % (type(e).__name__, e)
        o.hyps, o.goal = path, g
    o.secs = time.time() - t0
    oc.obls.append(o)
