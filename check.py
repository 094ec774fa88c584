#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  |  check.py --replay FILE

Decides one property on /repo's current tree:
 1. every contract of the property (vp/contracts) is re-verified: the obligations are generated from
    the current source of /repo and discharged by z3 / cvc5 (python3-vt -m vp.worker, one process per contract);
 2. the functions outside the verified subset, and the inputs of any undischarged obligation, are exercised on the
    real code by the property's scenarios (rtl/, /opt/venv/bin/python), which also serve to replay a failure.
Exit 0: held. Exit 1: VIOLATION line."""
import sys, os, json, time, subprocess, threading, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
PYV = '/usr/local/bin/python3-vt'
PYR = '/opt/venv/bin/python'
BUILD = os.path.join(HERE, 'build')
CORES = max(2, min(8, os.cpu_count() or 2))


def sh(cmd, timeout, env=None, procs=None):
    e = dict(os.environ)
    e.update({'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'})
    e.update(env or {})
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=HERE, env=e)
    if procs is not None:
        procs.append(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        rc, err = 'timeout', ''
    for l in reversed((out or '').splitlines()):
        if l.startswith('RESULT '):
            return json.loads(l[7:]), rc, time.time() - t0, err
    return None, rc, time.time() - t0, (err or '')[-3000:]


def runtime(prop, seed, n, budget):
    return sh([PYR, '-m', 'rtl.run', prop, str(seed), str(n), str(budget)], budget * 3 + 60)


def relevant(r, prop):
    return {n: g for n, g in r['groups'].items() if not g.get('props') or prop in g['props']}


def main():
    if sys.argv[1] == '--replay':
        rp = json.load(open(sys.argv[2]))
        if 'case' not in rp:
            print(json.dumps(rp, indent=1))
            sys.exit(1)
        sys.exit(subprocess.call([PYR, '-m', 'rtl.run', '--replay', os.path.abspath(sys.argv[2])], cwd=HERE))
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    meta = json.load(open(os.path.join(HERE, 'props.json'))).get(prop, {})
    total = 640 if tier == 'quick' else 20000
    limit = 420 if tier == 'quick' else 1500
    rbudget = 12 if tier == 'quick' else 240
    nproc = 2 if tier == 'quick' else 6

    lst, rc, _, err = sh([PYV, '-m', 'vp.worker', '--list'], 120)
    if lst is None:
        print('ERROR: the contracts could not be loaded: %s' % err)
        sys.exit(2)
    todo = [n for n, ps, t, b in lst if prop in ps and (t == 'quick' or tier == 'thorough')]
    results, rts, decided, stopped = {}, [], False, False
    with cf.ThreadPoolExecutor(CORES) as ex:
        fr = [ex.submit(runtime, prop, seed * 100 + i, 100000, rbudget) for i in range(nproc)]
        procs = []
        fc = {ex.submit(sh, [PYV, '-O', '-m', 'vp.worker', c, str(limit), prop], limit + 60, None, procs): c for c in todo}
        stop, pending = t0 + total, set(fc) | set(fr)
        while pending:
            done, pending = cf.wait(pending, timeout=max(0.1, min(5, stop - time.time())), return_when=cf.FIRST_COMPLETED)
            for f in done:
                if f.cancelled():
                    continue
                if f in fc:
                    r = results[fc[f]] = f.result()
                    if r[0] and any(g['bad'] and g['bad'][0] == 'failed' for g in relevant(r[0], prop).values()):
                        decided = True
                elif f.result()[0] and f.result()[0]['violations']:
                    decided = True
            if decided:         # the answer is known: what is still running gets a moment to finish
                stop = min(stop, time.time() + 20)
            if time.time() > stop:
                stopped = True
                for f in pending:
                    if f in fc:
                        f.cancel()
                for q in procs:
                    q.kill()
        for f in fr:
            rts.append(f.result())

    # ---------------------------------------------------------------- obligations
    obl = dis = bobl = bdis = 0
    bad, backends, functions, bounded, solver_s, queries, notes, loaded = [], {}, set(), [], 0., 0, [], set()
    percontract = {}
    for c in todo:
        r, rc, wall, err = results.get(c, (None, 'not started', 0, ''))
        if r is None and decided and stopped:
            notes.append('%s: stopped, a failed obligation or a violation was found before' % c)
            continue
        if r is None:
            bad.append((c, 'worker', 'unknown', 'the verifier gave no answer (%s): %s' % (rc, err)))
            obl += 1
            continue
        r['groups'] = relevant(r, prop)
        functions |= set(r['functions'])
        loaded |= set(r['loaded'])
        notes += ['%s: %s' % (c, n) for n in r['notes']]
        if r['bounded']:
            bounded.append('%s: %s' % (c, r['bounded']))
        solver_s += r['solver_s']
        queries += r['queries']
        n = sum(g['n'] for g in r['groups'].values())
        percontract[c] = {'paths': r['paths'], 'obligations': n, 'wall_s': round(r['wall'], 2)}
        if not n:
            bad.append((c, 'obligations', 'unknown', 'no obligation was generated'))
            obl += 1
        proved = sum(g['proved'] for g in r['groups'].values())
        if r['bounded']:        # structure enumerated up to a bound: counted apart
            bobl, bdis = bobl + n, bdis + proved
        else:
            obl, dis = obl + n, dis + proved
        for name, g in r['groups'].items():
            for b, k in g['backends'].items():
                backends[b] = backends.get(b, 0) + k
            if g['bad']:
                bad.append((c, name, g['bad'][0], g['bad'][1]))

    # ---------------------------------------------------------------- scenarios on the real code
    evals, cases, viol, rerr = 0, {}, [], []
    for r, rc, wall, err in rts:
        if r is None:
            rerr.append('scenarios gave no answer (%s): %s' % (rc, err))
            continue
        for k, v in r['runs'].items():
            cases[k] = cases.get(k, 0) + v
            evals += v
        viol += r['violations']
    if bad and not viol:
        # look for a failing input for the undischarged obligations
        left = max(20, min(150 if tier == 'quick' else 600, (650 if tier == 'quick' else 3000) - (time.time() - t0)))
        with cf.ThreadPoolExecutor(CORES) as ex:
            for r, rc, wall, err in ex.map(lambda i: runtime(prop, seed * 1000 + 17 * i + 3, 10 ** 7, left), range(CORES)):
                if r is None:
                    continue
                for k, v in r['runs'].items():
                    cases[k] = cases.get(k, 0) + v
                    evals += v
                viol += r['violations']
    if rerr and not viol:
        # the real code (or its import) breaks the scenario runner itself
        viol_line = True
    level = meta.get('level', 'other')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'bounded_obligations': bobl, 'bounded_discharged': bdis,
            'explanation': EXPLAIN,
            'checker_cmd': 'python3-vt -m vp.worker <contract> %d  (contracts: %s)' % (limit, ' '.join(todo)),
            'trusted_base': meta.get('trusted', []) + TRUSTED,
            'functions_under_contract': sorted(functions), 'back_ends': backends, 'solver_s': round(solver_s, 2),
            'solver_queries': queries, 'contracts': percontract, 'modules_executed_symbolically': sorted(loaded),
            'undischarged': ['%s :: %s (%s)' % b[:3] for b in bad],
            'bounded_parts': bounded + meta.get('bounded', []),
            'notes': sorted(set(notes))[:50],
            'bounded_scenarios_on_real_code': {'runs': cases, 'total': evals,
                                               'note': 'bounded stand-in for what is outside the verified subset; not counted as proved'},
            'evaluations': evals, 'distinct_nontrivial': evals,
            'rule': 'each scenario run is a distinct seed of its generator', 'samples': sorted(cases)[:10],
        },
        'assumptions': meta.get('assumptions', []) + ASSUME,
        'wall_s': round(time.time() - t0, 2), 'violations': (1 if (viol or bad or rerr) else 0),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    print('%s: %d/%d obligations discharged without bound, %d/%d within stated bounds, in %d contracts (%.1f s solver, %s); %d scenario runs on the real code; %.1f s' % (
        prop, dis, obl, bdis, bobl, len(todo), solver_s, backends, evals, time.time() - t0))
    for b in bad:
        print('  undischarged: %s :: %s (%s)' % b[:3])
    if not (viol or bad or rerr):
        sys.exit(0)
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    rp = {'property': prop, 'undischarged': [dict(zip(('contract', 'obligation', 'status', 'verifier_output'), b)) for b in bad]}
    path = os.path.join(BUILD, 'replay', prop + '.json')
    if viol:
        rp.update(viol[0])
        rp['how'] = 'python3 check.py --replay %s' % path
        print('  %s (scenario %s, seed %d)' % (viol[0]['message'], viol[0]['case'], viol[0]['seed']))
    if rerr:
        rp['runner'] = rerr
        print('  ' + rerr[0][-1500:])
    with open(path, 'w') as f:
        json.dump(rp, f, indent=1, default=str)
    tail = '' if viol else ' no-failing-input-found'
    print('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
    sys.exit(1)


EXPLAIN = ('Contracts on the real functions; every obligation generated from the current source is discharged by z3 or cvc5. '
           'obligations/discharged: contracts quantified without bound. bounded_obligations/bounded_discharged: contracts whose '
           'array lengths, values, units and times are unbounded but whose structure (number of dimensions, names or operations) is '
           'enumerated completely up to the bound stated in bounded_parts. Scenario runs exercise the real code and are not proofs.')
TRUSTED = [
    'z3 4.x (python z3-solver) and cvc5 1.1.2 as back ends',
    'vp/core.py, vp/rt.py, vp/loader.py: the verification-condition generator (symbolic execution of the AST of the files in /repo; '
    'loops over collections of unknown size by a lazily instantiated summary)',
    'vp/models.py: assumed contracts of numpy, xarray, pint, six and inspect as far as the functions under contract use them',
    'the contracts in vp/contracts and the scenario oracles in rtl/',
]
ASSUME = [
    'floating point arithmetic is treated as exact real arithmetic in the proofs (scenarios compare to rounding)',
    'the component code supplied by the user (array_call) does not write to the arrays or dictionaries it is given',
]

main()
