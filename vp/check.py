"""check <property>: discharge all obligations of the property against /repo's current source."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('NVECTOR_REPO', '/repo')

TRUSTED = [
    'vp/sym.py: the model of numpy/math operations on symbolic arrays (cross-checked against CPython on every run)',
    'vp/alg.py, vp/prove.py: the rewriting prover and its case splitting',
    'z3 4.8+/cvc5 1.1 (QF_NRA) for sign conditions and inequalities',
    'CPython 3.12 executing the unmodified source of /repo/src/nvector on symbolic arrays (no source translation)',
]
ASSUME = [
    'machine arithmetic is treated as exact real arithmetic in the proofs; x + tiny (denormal-range constants) is x, or '
    'tiny when x = 0; rounding is only covered by the bounded runtime companion with stated tolerances',
    'the symbolic column count N stands for every N >= 2 except 3; N = 1 and N = 3 are executed separately',
    'infinities and signed zeros are outside the real-number semantics (runtime companion only)',
]


def load(prop):
    return importlib.import_module('vp.contracts.' + prop.lower())


def jobs_of(mod, tier):
    out = []
    for i, con in enumerate(mod.CONTRACTS):
        for j, cfg in enumerate(con.configs):
            if cfg.get('thorough') and tier != 'thorough' and con.sym_only:
                continue
            out.append((i, j))
    return out


def setup(repo=None):
    sys.path[:0] = [os.path.join(repo or REPO, 'src')]
    import warnings
    warnings.simplefilter('ignore')
    import nvector
    src = os.path.realpath(os.path.join(repo or REPO, 'src', 'nvector'))
    if os.path.realpath(os.path.dirname(nvector.__file__)) != src:
        raise SystemExit('nvector imported from %s instead of %s' % (nvector.__file__, src))
    return nvector


def job(args):
    prop, i, j, tier, seed, t_end = args
    try:
        return _job(prop, i, j, tier, seed, t_end)
    except MemoryError:
        return dict(con=i, cfg=j, error='MemoryError', obls=[], rac=None)
    except Exception:
        return dict(con=i, cfg=j, error=traceback.format_exc(), obls=[], rac=None)


def more(r, r2):
    for k in ('evaluations', 'clauses', 'skipped'):
        r[k] += r2[k]
    r['failures'] += r2['failures']
    r['distinct'] |= r2['distinct']


def _job(prop, i, j, tier, seed, t_end):
    from . import verify, rac, falsify, stubs, prove, sym
    import nvector as nv
    mod = load(prop)
    con = mod.CONTRACTS[i]
    cfg = {k: v for k, v in con.configs[j].items() if k != 'thorough'}
    t0 = time.time()
    sym.SIZES.clear()
    res = dict(con=i, cfg=j, name=con.name, cfgname=verify.cfg_name(cfg), obls=[], unsupported=None, error=None,
               cross=0, cross_bad=None, rac=None, failing=[], paths=0)
    oc = None
    # 'thorough' configurations: only run (not proved) by the quick check
    if not con.num_only and (tier == 'thorough' or not con.configs[j].get('thorough')):
        try:
            oc = verify.run_symbolic(con, cfg, nv, seed=seed, deadline=t_end, stubs=stubs.make(nv, con.stubs),
                                     cross=rac.make_cross(nv, seed))
        except MemoryError:
            raise
        except Exception as e:
            if os.environ.get('VP_DEBUG'):
                traceback.print_exc()
            oc = verify.Outcome(con, cfg)
            oc.unsupported = 'error of the engine: %s: %s' % (type(e).__name__, e)
        try:
            rac.finish_cross(oc, nv)
        except Exception as e:
            oc.cross_bad = 'cross-check failed: %s: %s' % (type(e).__name__, e)
        res['unsupported'] = oc.unsupported
        res['cross'], res['cross_bad'], res['paths'] = oc.cross, oc.cross_bad, oc.paths
        res['sym_s'] = time.time() - t0
    # bounded runtime companion
    r = None
    if not con.sym_only:
        base = (40 if tier == 'quick' else 400) * con.trials
        lim = min(t_end, time.time() + (25 if tier == 'quick' else 240))
        r = rac.explore(con, [cfg], nv, seed, max(4, int(base)), lim)
    sizes = sorted({n for k in sym.SIZES if k <= 2000 for n in (k - 1, k, k + 1) if n > 1}) + [12, 40, 130]
    if oc is not None and r is not None and sym.SIZES and not r['failures'] and any(o.status != 'proved' for o in oc.obls):
        more(r, rac.explore(con, [cfg], nv, seed + 2, 60, min(t_end, time.time() + 20), sizes=sizes))
    if oc is not None:
        for o in oc.obls:
            d = o.as_dict()
            if o.status in ('failed', 'unknown') and not con.sym_only:
                d['replay'] = None
                n = {'N': 2, None: 1}.get(cfg.get('N'), cfg.get('N'))

                def real(vals):
                    q = rac.evaluate(con, cfg, nv, vals)
                    return q is not None and q[1]
                try:
                    if o.env is not None:
                        vals = rac.env_to_values(con, cfg, o.env, n)
                        f = real(vals)
                        if f:
                            d['replay'] = dict(rac.describe(con, cfg, vals), observed=f[0].info, clause=f[0].label)
                    if d['replay'] is None and not (r and r['failures']) and getattr(o, 'goal', None) is not None:
                        vals = falsify.search(con, cfg, o.hyps, o.goal, seed,
                                              min(25.0, max(3.0, t_end - time.time())), real)
                        if vals is not None:
                            f = real(vals)
                            d['replay'] = dict(rac.describe(con, cfg, vals), observed=f[0].info, clause=f[0].label)
                except Exception as e:
                    d['falsify_error'] = '%s: %s' % (type(e).__name__, e)
            res['obls'].append(d)
        bad = [o for o in res['obls'] if o['status'] != 'proved'] or oc.unsupported
        if bad and r is not None and not r['failures'] and not any(o.get('replay') for o in res['obls']):
            # undecided: look for a failing input with more runs
            more(r, rac.explore(con, [cfg], nv, seed + 1, 600, min(t_end, time.time() + 20), sizes=sizes))
    if r is not None:
        res['rac'] = dict(evaluations=r['evaluations'], clauses=r['clauses'], skipped=r['skipped'],
                          distinct=len(r['distinct']), samples=r['samples'])
        for f in r['failures'][:3]:
            res['failing'].append(dict(rac.describe(con, cfg, f.inputs), observed=f.info, clause=f.label))
    res['secs'] = time.time() - t0
    res['solver'] = dict(prove.STATS)
    for k in prove.STATS:
        prove.STATS[k] = 0 if isinstance(prove.STATS[k], int) else 0.0
    return res


def known(prop):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line[len('finding: property=%s ' % prop):])
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = 420 if tier == 'quick' else 800
    t_end = t0 + limit
    try:
        nv = setup()
    except BaseException as e:
        # the tree does not import: every obligation of the property fails
        if isinstance(e, KeyboardInterrupt):
            raise
        return import_failed(prop, tier, seed, t0, e)
    from . import prove
    mod = load(prop)
    todo = [(prop, i, j, tier, seed, t_end) for i, j in jobs_of(mod, tier)]
    results = []
    nproc = min(8, os.cpu_count() or 2, len(todo))
    ctx = mp.get_context('fork')
    if os.environ.get('VP_SERIAL'):
        results = [job(t) for t in todo]
    else:
        with ctx.Pool(nproc, maxtasksperchild=None) as pool:
            pend = [(t, pool.apply_async(job, (t,))) for t in todo]
            for t, a in pend:
                try:
                    results.append(a.get(timeout=max(5.0, t_end + 60 - time.time())))
                except mp.TimeoutError:
                    results.append(dict(con=t[1], cfg=t[2], error='time limit', obls=[], rac=None))
            pool.terminate()
    results = second_attempt(mod, todo, results, t0 + (700 if tier == 'quick' else 850))
    extra = []
    if hasattr(mod, 'extra'):
        try:
            extra = mod.extra(nv, tier, seed)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            own = [f for f in tb if f.filename.startswith(ROOT)][-1]
            extra = [dict(name='enumerated cases: no exception', status='failed', secs=0.0, path='', backends={},
                          why='%s: %s' % (type(e).__name__, e),
                          replay=dict(call=own.line, observed='%s: %s' % (type(e).__name__, e)))]
    return report(prop, tier, seed, t0, mod, results, extra)


def open_obligations(r):
    return [o for o in r.get('obls') or [] if o['status'] != 'proved' and not o.get('replay')]


def second_attempt(mod, todo, results, t_end):
    """Obligations that failed without a failing input are tried once more with four times the solver time, on fewer
    processes, so that a time-out of a solver on a busy machine is not reported as a violation."""
    again = [k for k, r in enumerate(results) if open_obligations(r) and not r.get('failing')]
    if not again or any(r.get('failing') or any(o.get('replay') for o in r.get('obls') or []) for r in results):
        return results
    left = t_end - time.time()
    if left < 60:
        return results
    t_end = min(t_end, time.time() + 300)
    with mp.get_context('fork').Pool(min(4, len(again))) as pool:
        pend = [(k, pool.apply_async(retry_job, (todo[k][:5] + (t_end - 20,),))) for k in again]
        for k, a in pend:
            try:
                r = a.get(timeout=max(1.0, t_end - time.time()))
            except mp.TimeoutError:
                continue
            if not r.get('error') and (len(open_obligations(r)) < len(open_obligations(results[k])) or r['failing'] or
                                       any(o.get('replay') for o in r['obls'])):
                results[k] = r
        pool.terminate()
    return results


def retry_job(args):
    from . import prove
    prove.Z3_MS = 16000
    prove.BUDGET_SCALE = 3.0
    return job(args)


def import_failed(prop, tier, seed, t0, e):
    path = write_replay(prop, dict(property=prop, obligation='import of the package', observed='%s: %s' % (
        type(e).__name__, e), command='PYTHONPATH=/repo/src /opt/venv/bin/python -c "import nvector"'))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=dict(
        obligations=1, discharged=0, checker_cmd='./check ' + prop, trusted_base=TRUSTED), assumptions=ASSUME,
        wall_s=time.time() - t0, violations=1)
    write_evidence(prop, ev)
    print('import of the package fails: %s: %s' % (type(e).__name__, e))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def write_replay(prop, data):
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s.json' % prop)
    with open(p, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return p


def write_evidence(prop, ev):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


TIME_WORDS = ('time budget exhausted', 'MemoryError', 'RecursionError', 'does not terminate')


def report(prop, tier, seed, t0, mod, results, extra):
    obl = []
    lines = []
    viol = []
    undecided = []
    rac_ev = rac_cl = rac_di = 0
    samples = []
    cross = 0
    solver = {}
    backends = {}
    unsupported = []
    errors = []
    per = []
    maxsecs = 0.0
    for r in results:
        con = mod.CONTRACTS[r['con']]
        if r.get('error'):
            errors.append('%s cfg %d: %s' % (con.name, r['cfg'], r['error'].strip().splitlines()[-1]))
            if os.environ.get('VP_DEBUG'):
                print(r['error'])
            continue
        for k, v in (r.get('solver') or {}).items():
            solver[k] = solver.get(k, 0) + v
        trust = not r['cross_bad']
        if r['cross_bad']:
            unsupported.append('%s[%s]: engine cross-check disagrees, proof not counted: %s' % (
                con.name, r['cfgname'], r['cross_bad']))
        cross += r['cross']
        if r['unsupported']:
            unsupported.append('%s[%s]: %s' % (con.name, r['cfgname'], r['unsupported']))
        ok = 0
        for o in r['obls']:
            o['counted'] = trust
            obl.append(o)
            maxsecs = max(maxsecs, o['secs'])
            if o['status'] == 'proved' and trust:
                ok += 1
                for k, v in o['backends'].items():
                    backends[k] = backends.get(k, 0) + v
            elif o['status'] != 'proved' and trust:
                if o.get('replay'):
                    viol.append((o['name'], o['why'], o['replay']))
                elif any(w in o['why'] for w in TIME_WORDS):
                    undecided.append(o['name'] + ': ' + o['why'])
                else:
                    viol.append((o['name'], o['why'], None))
        per.append('%s[%s]: %d/%d' % (con.name, r['cfgname'], ok, len(r['obls'])))
        if r['rac']:
            rac_ev += r['rac']['evaluations']
            rac_cl += r['rac']['clauses']
            rac_di += r['rac']['distinct']
            samples += r['rac']['samples']
        for f in r['failing']:
            viol.append(('%s[%s]: %s' % (con.name, r['cfgname'], f['clause']), f['observed'], f))
    for x in extra:
        obl.append(x)
        x['counted'] = True
        if x['status'] == 'proved':
            for k, v in x.get('backends', {'enumeration': 1}).items():
                backends[k] = backends.get(k, 0) + v
        else:
            viol.append((x['name'], x['why'], x.get('replay')))
    discharged = sum(1 for o in obl if o['status'] == 'proved' and o['counted'])
    functions = sorted(set(f for con in mod.CONTRACTS for f in con.functions))
    # known findings
    kf = known(prop)
    quiet = []
    rest = []
    for v in viol:
        hit = [k for k in kf if k.split(' :: ')[0] in v[0]]
        (quiet if hit else rest).append(v)
    for v in quiet:
        print('KNOWN-FINDING: property=%s %s' % (prop, v[0]))
    viol = rest
    viol.sort(key=lambda v: v[2] is None)
    status = 0
    level = getattr(mod, 'LEVEL', 'proof')
    cov = dict(obligations=len(obl), discharged=discharged,
               checker_cmd='./check %s %s' % (prop, tier), trusted_base=TRUSTED + list(getattr(mod, 'TRUSTED', [])),
               functions_under_contract=functions, backends=backends,
               solver_seconds=round(solver.get('z3_s', 0) + solver.get('cvc5_s', 0), 2),
               slowest_obligation_s=round(maxsecs, 2),
               engine_crosschecks=cross, per_contract=per, undecided=undecided + errors, outside_engine=unsupported,
               bounded_companion=dict(
                   label='bounded, never counted as proved', evaluations=rac_ev, clauses=rac_cl,
                   distinct_nontrivial=rac_di,
                   rule='seeded random and edge-case inputs that satisfy the precondition, run on the real code; '
                        'distinct by input bytes'),
               evaluations=rac_ev, distinct_nontrivial=rac_di,
               rule='inputs of the bounded runtime companion: satisfy the precondition, distinct by input bytes',
               samples=samples[:3] or [o['name'] for o in obl[:3]])
    if level == 'other':
        cov['explanation'] = getattr(mod, 'EXPLANATION', '')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUME + list(getattr(mod, 'ASSUME', [])), wall_s=round(time.time() - t0, 2),
              violations=len(viol))
    while len(json.dumps(ev, default=str)) > 60000 and len(cov['per_contract']) > 5:
        cov['per_contract'] = cov['per_contract'][:len(cov['per_contract']) // 2] + ['...']
    write_evidence(prop, ev)
    print('%s: %d obligations, %d discharged, %d undecided; bounded companion %d runs / %d clauses; %.1f s' % (
        prop, len(obl), discharged, len(undecided) + len(errors), rac_ev, rac_cl, time.time() - t0))
    for u in unsupported[:8]:
        print('  outside the engine (bounded companion only): ' + u)
    for u in (undecided + errors)[:8]:
        print('  undecided: ' + u[:300])
    if os.environ.get('VP_SLOW'):
        for o in sorted(obl, key=lambda o: -o.get('secs', 0))[:12]:
            print('   %6.2f s  %s %s' % (o.get('secs', 0), o['name'], o.get('backends')))
    if viol:
        name, why, rep = viol[0]
        data = dict(property=prop, obligation=name, verifier_output=why, counterexample=rep,
                    all_failed=[dict(obligation=v[0], why=v[1]) for v in viol[:20]],
                    command='./check replay <this file>' if rep else None)
        path = write_replay(prop, data)
        for v in viol[:8]:
            print('  FAILED %s: %s' % (v[0], str(v[1])[:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if rep else ' no-failing-input-found'))
        return 1
    if not obl and not rac_ev:
        # nothing was decided: do not pretend
        print('no obligation was generated')
        path = write_replay(prop, dict(property=prop, obligation='generation of obligations', errors=errors,
                                       unsupported=unsupported))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    return status


def replay(path):
    """Run the recorded counterexample against the current tree."""
    data = json.load(open(path))
    nv = setup()
    from . import rac
    import numpy as np
    rep = data.get('counterexample')
    if not rep or 'contract' not in rep:
        print(json.dumps(data, indent=1))
        return 1
    mod = load(data['property'])
    for con in mod.CONTRACTS:
        if con.name != rep['contract']:
            continue
        for cfg in con.configs:
            cfg = {k: v for k, v in cfg.items() if k != 'thorough'}
            if {k: str(v) for k, v in cfg.items()} == rep['config']:
                vals = {}
                for name, dom in con.inputs(cfg).items():
                    v = rep['inputs'].get(name, dom if not hasattr(dom, 'shape') else None)
                    vals[name] = np.array(v, dtype=float) if hasattr(dom, 'shape') else v
                r = rac.evaluate(con, cfg, nv, vals)
                print('inputs: %s' % json.dumps(rep['inputs'], default=str))
                if r is None:
                    print('precondition does not hold')
                    return 1
                for f in r[1]:
                    print('FAILS %s: %s' % (f.label, f.info))
                print('%d clauses evaluated, %d violated' % (r[0], len(r[1])))
                return 1 if r[1] else 0
    print('contract not found')
    return 1


if __name__ == '__main__':
    sys.exit(main())
