"""Search for inputs on the failing path of an undischarged obligation (never decides anything)."""
import math
import random
import time
import numpy as np
import mpmath
from . import term as tm
from .contract import Dom, edge_values, generic_values, env_from_values, _o

mpf = mpmath.mpf


def penalty(c, env, memo):
    """0 if the condition holds, otherwise a positive measure of the violation"""
    op = c.op
    if op == 'and':
        return penalty(c.args[0], env, memo) + penalty(c.args[1], env, memo)
    if op == 'not':
        h = c.args[0]
        if h.op == 'and':
            return min(penalty(tm.bnot(h.args[0]), env, memo), penalty(tm.bnot(h.args[1]), env, memo))
        if h.op == 'not':
            return penalty(h.args[0], env, memo)
        if h.op in ('lt', 'le'):
            a, b = (tm.evaluate(q, env, memo, tm.UF_IMPL) for q in h.args)
            if mpmath.isnan(a) or mpmath.isnan(b):
                return mpf(0)
            d = b - a
            return d if d > 0 else (mpf(10) ** -30 if (h.op == 'le' and d == 0) else mpf(0))
        return mpf(0) if not tm.evaluate(h, env, memo, tm.UF_IMPL) else mpf(1)
    if op in ('lt', 'le', 'eq'):
        a, b = (tm.evaluate(q, env, memo, tm.UF_IMPL) for q in c.args)
        if mpmath.isnan(a) or mpmath.isnan(b):
            return mpf(10) ** 6
        d = a - b
        if op == 'eq':
            return mpf(0) if tm.evaluate(c, env, memo, tm.UF_IMPL) else abs(d)
        return d if d > 0 else (mpf(10) ** -30 if (op == 'lt' and d == 0) else mpf(0))
    return mpf(0) if tm.evaluate(c, env, memo, tm.UF_IMPL) else mpf(1)


def values_env(con, cfg, vals, n):
    return env_from_values(con, cfg, {k: (_o(v) if isinstance(v, np.ndarray) else v) for k, v in vals.items()}, n)


def renorm(con, cfg, vals):
    for name, dom in con.inputs(cfg).items():
        if isinstance(dom, Dom) and dom.unit:
            v = vals[name]
            vals[name] = v / np.sqrt((v ** 2).sum(axis=0, keepdims=True))
    return vals


def search(con, cfg, hyps, goal, seed, seconds, check):
    """Try inputs satisfying hyps; check(vals) runs the real code and returns failures.  -> vals or None"""
    rng = random.Random('f%s%s%s' % (seed, con.name, sorted(cfg.items(), key=str)))
    N = cfg.get('N')
    n = {'N': 2, None: 1}.get(N, N)
    t_end = time.time() + seconds
    neg = tm.bnot(goal)
    best = []
    tried = 0
    conds = list(hyps) + [neg]

    def cost(vals):
        env = values_env(con, cfg, vals, n)
        memo = {}
        p = mpf(0)
        try:
            for c in conds:
                p += penalty(c, env, memo)
        except (KeyError, tm.Undefined, ZeroDivisionError, ValueError, OverflowError):
            return None
        return p
    old = mpmath.mp.dps
    mpmath.mp.dps = 25
    try:
        while time.time() < t_end and tried < 400:
            tried += 1
            try:
                vals = edge_values(con, cfg, rng, n) if rng.random() < 0.7 else \
                    {k: (v.astype(float) if isinstance(v, np.ndarray) else v)
                     for k, v in generic_values(con, cfg, rng, n).items()}
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            p = cost(vals)
            if p is None:
                continue
            if p == 0:
                mpmath.mp.dps = old
                if check(vals):
                    return vals
                mpmath.mp.dps = 25
            best.append((p, tried, vals))
            best.sort(key=lambda q: (q[0], q[1]))
            del best[8:]
        # local search from the best starting points
        for p0, _t, vals in list(best):
            cur, pc = vals, p0
            scale = 0.3
            for it in range(250):
                if time.time() > t_end:
                    return None
                new = {}
                names = [k for k, v in cur.items() if isinstance(v, np.ndarray)]
                pick = rng.choice(names)
                for k, v in cur.items():
                    if k == pick:
                        sc = scale * 10.0 ** rng.uniform(-6, 0)
                        g = np.array([rng.gauss(0, 1) for _ in range(v.size)]).reshape(v.shape)
                        new[k] = v + g * sc * np.maximum(1.0, np.abs(v) if v.ndim < 2 else 1.0)
                    else:
                        new[k] = v
                new = renorm(con, cfg, new)
                p = cost(new)
                if p is None:
                    continue
                if p <= pc:
                    cur, pc = new, p
                if p == 0:
                    mpmath.mp.dps = old
                    if check(new):
                        return new
                    mpmath.mp.dps = 25
    finally:
        mpmath.mp.dps = old
    return None
