"""Runtime contract evaluation of the real code: replay, bounded floating-point companion, cross-check."""
import copy
import math
import random
import signal
import time
import warnings
import numpy as np
import mpmath
from . import term as tm
from . import sym
from .contract import NumMath, Inputs, Dom, edge_values, generic_values, env_from_values, _o

mpf = mpmath.mpf


class Hang(Exception):
    pass


def _alarm(*a):
    raise Hang('no result within the time limit')


class Failure(object):
    def __init__(self, label, info, inputs, cfg):
        self.label, self.info, self.inputs, self.cfg = label, info, inputs, cfg


def to_inputs(con, cfg, vals):
    x = Inputs()
    for name, dom in con.inputs(cfg).items():
        v = vals[name]
        if isinstance(dom, Dom):
            v = np.array(v, dtype=float)
            if as_integers(v):
                v = v.astype(int)
            if v.ndim == 0:
                v = v.item()
        x[name] = v
    return x


def as_integers(v):
    """Integral inputs are passed as Python or numpy integers in half of the runs (decided by the values, so that a
    replay does the same)"""
    if not (v.size and np.all(np.isfinite(v)) and np.all(v == np.round(v)) and np.max(np.abs(v)) < 2 ** 40):
        return False
    if np.any((v == 0) & np.signbit(v)):
        return False
    return int(np.sum(np.abs(v)) + v.size) % 2 == 0


def spec_inputs(con, cfg, vals):
    s = Inputs()
    for name, dom in con.inputs(cfg).items():
        v = vals[name]
        s[name] = _o(np.array(v, dtype=float)) if isinstance(dom, Dom) else v
    return s


def ncols_of(con, cfg, vals):
    for name, dom in con.inputs(cfg).items():
        if isinstance(dom, Dom) and 'N' in dom.shape:
            return int(np.shape(vals[name])[-1])
    return 1


def requires_ok(con, cfg, m, s):
    for name, dom in con.inputs(cfg).items():
        if not isinstance(dom, Dom) or not hasattr(dom, 'ok'):
            continue
        for v in np.ravel(s[name]):
            if not dom.ok(v):
                return False
    if con.requires is not None:
        for c in con.requires(m, s, cfg):
            if not bool(np.all(np.asarray(c, dtype=bool))):
                return False
    if con.keep is not None and not con.keep(m, s, cfg):
        return False
    return True


def evaluate(con, cfg, nv, vals, timeout=20):
    """-> (n_clauses, [Failure]) ; None if the precondition does not hold"""
    n = ncols_of(con, cfg, vals)
    m = NumMath(n)
    s = spec_inputs(con, cfg, vals)
    try:
        if not requires_ok(con, cfg, m, s):
            return None
    except Hang:
        raise
    x = to_inputs(con, cfg, vals)
    snap = {k: np.array(v, copy=True) for k, v in x.items() if isinstance(v, np.ndarray)}
    fails = []
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            with np.errstate(all='ignore'):
                out = con.call(nv, x, cfg)
    except Hang as e:
        return 1, [Failure('termination', str(e), vals, cfg)]
    except Exception as e:
        return 1, [Failure('no exception', '%s: %s' % (type(e).__name__, e), vals, cfg)]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    m.warned = [(str(i.message), i.category) for i in w if i.category not in (DeprecationWarning, SyntaxWarning)
                and not issubclass(i.category, (DeprecationWarning, SyntaxWarning))]
    count = 0
    if con.frame_check:
        count += 1
        for k, v in snap.items():
            if not (v.shape == x[k].shape and np.array_equal(v, x[k], equal_nan=True)):
                fails.append(Failure('frame (arguments unmodified)', 'argument %s modified' % k, vals, cfg))
    try:
        clauses = list(con.ensures(m, s, out, cfg))
    except (ValueError, TypeError, IndexError, KeyError, AttributeError) as e:
        return 1, [Failure('shape/type of the result', 'result does not have the contracted form: %s: %s' % (
            type(e).__name__, e), vals, cfg)]
    for cl in clauses:
        count += 1
        try:
            bad = violated(cl, m)
        except (ValueError, TypeError, IndexError) as e:
            bad = 'result does not have the contracted form: %s: %s' % (type(e).__name__, e)
        if bad:
            fails.append(Failure(cl.label, bad, vals, cfg))
    return count, fails


def _isnan(x):
    return np.asarray(np.frompyfunc(lambda v: bool(mpmath.isnan(v)), 1, 1)(x), dtype=bool)


ULPS = 8


def slack(t, v):
    """a tolerance of a few roundings is widened: code that computes the same in another order is as good"""
    return t * ULPS if 0 < t <= 1e-12 * max(1, abs(v)) else t


def violated(cl, m, where=None):
    """description of the violation or ''"""
    k = cl.kind
    if k == 'shape':
        want = tuple(m.N if q == 'N' else q for q in cl.shape)
        return '' if tuple(np.shape(cl.got)) == want else 'shape %r, contracted %r' % (tuple(np.shape(cl.got)), want)
    if k == 'check':
        return '' if cl.ok else 'violated: %s' % (cl.info,)
    if k == 'implies':
        c = np.asarray(cl.cond, dtype=bool)
        if cl.sure is not None:
            c = np.logical_and(c, np.asarray(cl.sure, dtype=bool))
        if not c.any():
            return ''
        return violated(cl.clause, m, c if where is None else np.logical_and(c, where))
    if k == 'eq':
        g, s, t = np.broadcast_arrays(_o(cl.got), _o(cl.spec), _o(cl.tol))
        if g.dtype == bool or s.dtype == bool:
            bad = np.asarray(g, bool) != np.asarray(s, bool)
        else:
            with np.errstate(all='ignore'):
                ok = np.frompyfunc(lambda a, b, c: (mpmath.isnan(a) and mpmath.isnan(b)) or
                                   bool(abs(a - b) <= c or abs(a - b) <= slack(c, b)), 3, 1)(g, s, t)
            bad = ~np.asarray(ok, dtype=bool)
        if where is not None:
            bad = bad & np.broadcast_to(where, bad.shape)
        if bad.any():
            i = tuple(int(q) for q in np.argwhere(bad)[0]) if bad.ndim else ()
            return 'entry %r: got %s, contracted %s (tolerance %s)' % (i, _s(g[i]), _s(s[i]), _s(t[i], 5))
        return ''
    if k == 'le':
        a, b, t = np.broadcast_arrays(_o(cl.a), _o(cl.b), _o(cl.tol))
        ok = np.frompyfunc(lambda p, q, c: bool(p <= q + c or p <= q + slack(c, q)), 3, 1)(a, b, t)
        bad = ~np.asarray(ok, dtype=bool)
        if where is not None:
            bad = bad & np.broadcast_to(where, bad.shape)
        if bad.any():
            i = tuple(int(q) for q in np.argwhere(bad)[0]) if bad.ndim else ()
            return 'entry %r: %s <= %s does not hold' % (i, _s(a[i]), _s(b[i]))
        return ''
    if k == 'iff':
        g, s = np.broadcast_arrays(np.asarray(cl.got, dtype=bool), np.asarray(cl.spec, dtype=bool))
        bad = g != s
        if cl.near is not None:
            bad = bad & ~np.broadcast_to(np.asarray(cl.near, dtype=bool), bad.shape)
        if where is not None:
            bad = bad & np.broadcast_to(where, bad.shape)
        if bad.any():
            i = tuple(int(q) for q in np.argwhere(bad)[0]) if bad.ndim else ()
            return 'entry %r: got %s, contracted %s' % (i, bool(g[i]), bool(s[i]))
        return ''
    raise TypeError(k)


def _s(v, n=17):
    try:
        return mpmath.nstr(v, n)
    except Exception:
        return str(v)


def usual(dom, v, old):
    """is v in the range from which the domain draws (or that of the drawn value)"""
    if not hasattr(dom, 'lim'):
        return True
    lo, hi = dom.lim()
    lo, hi = min(lo, np.min(old)), max(hi, np.max(old))
    return bool(np.all((v >= lo) & (v <= hi)))


def vary(con, cfg, rng, vals):
    """now and then: integral values, equal arguments"""
    k = rng.random()
    doms = con.inputs(cfg)
    names = [n for n, d in doms.items() if isinstance(d, Dom)]
    if k < 0.08:
        for n in names:
            if rng.random() < 0.7:
                v, d = np.array(vals[n], dtype=float), doms[n]
                if d.unit:
                    w = np.zeros_like(v)
                    for c in range(v.shape[1]):
                        i = int(np.argmax(np.abs(v[:, c])))
                        w[i, c] = 1.0 if v[i, c] > 0 else -1.0
                elif len(d.shape) == 3:
                    continue
                else:
                    w = np.round(v) + 0.0
                    if not usual(d, w, v):
                        continue
                vals[n] = w
    elif k < 0.14 and len(names) > 1:
        a = rng.choice(names)
        same = [n for n in names if n != a and type(doms[n]) is type(doms[a]) and np.shape(vals[n]) == np.shape(vals[a])
                and usual(doms[n], vals[a], vals[n])]
        if same:
            vals[rng.choice(same)] = np.array(vals[a], copy=True)
    return vals


def explore(con, cfgs, nv, seed, trials, deadline, stop_after=1, sizes=()):
    """bounded: random and edge inputs.  -> dict(evaluations, distinct, clauses, failures, samples)"""
    res = dict(evaluations=0, clauses=0, skipped=0, failures=[], samples=[], distinct=set())
    for ci, cfg0 in enumerate(cfgs):
        rng = random.Random('%s|%s|%s' % (seed, con.name, sorted(cfg0.items(), key=str)))
        done = 0
        attempts = 0
        while done < trials and attempts < 6 * trials:
            if time.time() > deadline:
                break
            attempts += 1
            cfg = dict(cfg0)
            if cfg.get('N') == 'N':
                n = rng.choice([2, 2, 4, 5, 7])
                if sizes and attempts % 6 == 1:
                    n = rng.choice(sizes)
            else:
                n = cfg.get('N') or 1
            try:
                if rng.random() < 0.3:
                    vals = {k: (np.array(v, dtype=float) if isinstance(v, np.ndarray) else v)
                            for k, v in generic_values(con, cfg, rng, n).items()}
                else:
                    vals = vary(con, cfg, rng, edge_values(con, cfg, rng, n))
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            r = evaluate(con, cfg, nv, vals)
            if r is None:
                res['skipped'] += 1
                continue
            done += 1
            res['evaluations'] += 1
            res['clauses'] += r[0]
            res['distinct'].add(hash(tuple(sorted((k, np.asarray(v).tobytes() if isinstance(v, np.ndarray) else str(v))
                                                  for k, v in vals.items()))))
            if len(res['samples']) < 1 and done == 2:
                res['samples'].append(describe(con, cfg, vals))
            if r[1]:
                res['failures'] += r[1]
                if len(res['failures']) >= stop_after:
                    return res
    return res


def describe(con, cfg, vals):
    return {'contract': con.name, 'config': {k: str(v) for k, v in cfg.items()},
            'inputs': {k: (np.asarray(v).tolist() if isinstance(v, np.ndarray) else v) for k, v in vals.items()
                       if isinstance(v, (np.ndarray, float, int, str, bool, type(None)))}}


def env_to_values(con, cfg, env, ncols):
    vals = {}
    for name, dom in con.inputs(cfg).items():
        if not isinstance(dom, Dom):
            vals[name] = dom
            continue
        shp = [ncols if q == 'N' else q for q in dom.shape]
        a = np.empty(shp)
        for idx in np.ndindex(*shp):
            comp = [i for k, i in enumerate(idx) if dom.shape[k] != 'N']
            cols = tuple(i for k, i in enumerate(idx) if dom.shape[k] == 'N')
            a[idx] = float(env[(name + ''.join('.%d' % c for c in comp), cols)])
        vals[name] = a
    return vals


# --------------------------------------------------------------------------- engine cross-check
def make_cross(nv, seed):
    """callback for verify.run_symbolic: symbolic results evaluated at float points == CPython results"""
    def cross(oc, theory, paths, con, cfg, s):
        rng = random.Random('x%s%s' % (seed, con.name))
        N = cfg.get('N')
        n = {'N': 2, None: 1}.get(N, N)
        for trial in range(3):
            vals = generic_values(con, cfg, rng, n)
            fl = {k: (v.astype(float) if isinstance(v, np.ndarray) else v) for k, v in vals.items()}
            env = env_from_values(con, cfg, {k: (_o(v) if isinstance(v, np.ndarray) else v) for k, v in fl.items()}, n)
            m = NumMath(n)
            sp = spec_inputs(con, cfg, fl)
            try:
                if not requires_ok(con, cfg, m, sp):
                    continue
            except Exception:
                continue
            hit = None
            for path, kind, val, warned in paths:
                try:
                    if all(tm.evaluate(p, env, None, theory.ufs) for p in path):
                        hit = (kind, val)
                        break
                except (KeyError, tm.Undefined):
                    hit = None
            if hit is None:
                continue
            oc.pending_cross = getattr(oc, 'pending_cross', []) + [(fl, env, hit, n)]
    return cross


def finish_cross(oc, nv, ufs=None):
    """Executed outside of the Patched context."""
    for fl, env, (kind, val), n in getattr(oc, 'pending_cross', []):
        x = to_inputs(oc.con, oc.cfg, fl)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    real = oc.con.call(nv, x, oc.cfg)
            rk = 'return'
        except Exception as e:
            rk, real = 'raise', e
        if rk != kind:
            oc.cross_bad = 'symbolic run %ss, CPython %ss (%s / %s)' % (kind, rk, val if kind == 'raise' else '',
                                                                      real if rk == 'raise' else '')
            return
        if kind == 'raise':
            oc.cross += 1
            continue
        bad = compare(val[2], real, env, n, ufs)
        if bad is None:
            continue
        if bad:
            oc.cross_bad = bad
            return
        oc.cross += 1
    oc.pending_cross = []


def has_ghost(t):
    """does the term contain a function that only the contract of a dependency specifies (no values to compare)"""
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == 'fn' and str(u.val).startswith('uf:g_'):
            return True
        todo.extend(u.args)
    return False


def compare(symv, real, env, n, ufs, where='result'):
    if isinstance(symv, sym.SA):
        if isinstance(real, np.ma.MaskedArray):
            return None
        r = np.asarray(real)
        want = tuple(n if isinstance(q, sym.SymDim) else q for q in symv.shape)
        if r.shape != want:
            return '%s: symbolic shape %r, CPython shape %r' % (where, want, r.shape)
        it = symv.d
        for idx in np.ndindex(*it.shape):
            t = it[idx]
            if any(str(g) not in 'jk' for g in t.tags) or has_ghost(t):
                return None
            # a symbolic axis is stored with size one and stands for column TAGCOL[tag]
            ridx = tuple(tm.TAGCOL[g] if g is not None else i for i, g in zip(idx, symv.tg))
            if any(i >= q for i, q in zip(ridx, r.shape)):
                continue
            try:
                v = tm.evaluate(t, env, None, ufs)
            except (KeyError, tm.Undefined):
                return None
            b = r[ridx]
            if isinstance(v, bool) or r.dtype == bool:
                if bool(v) != bool(b):
                    return '%s%r: symbolic %s, CPython %s' % (where, ridx, v, b)
                continue
            if mpmath.isnan(v) or b != b:
                if mpmath.isnan(v) and b != b:
                    continue
                return '%s%r: symbolic %s, CPython %s' % (where, ridx, v, b)
            if abs(v - mpf(float(b))) > mpf(10) ** -6 * (1 + abs(v)):
                return '%s%r: symbolic %s, CPython %r' % (where, ridx, mpmath.nstr(v, 12), float(b))
        return ''
    if isinstance(symv, (list, tuple)):
        if not isinstance(real, (list, tuple)) or len(real) != len(symv):
            return '%s: different structure' % where
        for i, (a, b) in enumerate(zip(symv, real)):
            r = compare(a, b, env, n, ufs, '%s[%d]' % (where, i))
            if r or r is None:
                return r
        return ''
    if isinstance(symv, dict):
        for k in symv:
            r = compare(symv[k], real[k], env, n, ufs, '%s[%r]' % (where, k))
            if r or r is None:
                return r
        return ''
    return ''
