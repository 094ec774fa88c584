"""worker.py CONTRACT LIMIT [PROPERTY]: discharge the obligations of one contract, generated from the
current source of /repo; prints one JSON line."""
import sys, os, json, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vp import core, spec
from vp.core import E

HERE = os.path.dirname(os.path.abspath(__file__))


def load_all():
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('vp.contracts.' + f[:-3])
    return spec.CONTRACTS


def run(c, limit):
    """The contract for dictionaries of any size; where the verifier gives no answer about the loops of the current
    source (no failed obligation, but constructs outside the subset), for dictionaries with at most two entries."""
    r = run1(c, limit)
    bad = [g['bad'][0] for g in r['groups'].values() if g['bad']]
    if bad and 'failed' not in bad and not r['bounded_stub']:
        E.bound = 2
        r2 = run1(c, limit)
        if not any(g['bad'] for g in r2['groups'].values()):
            why = [g['bad'][1][:200] for g in r['groups'].values() if g['bad']][0]
            r2['bounded'] = ((r2['bounded'] + '; ') if r2['bounded'] else '') + \
                'dictionaries with at most two entries (unbounded form not decided on this source: %s)' % why
            r2['wall'] += r['wall']
            r2['solver_s'] += r['solver_s']
            return r2
        for n, g in r2['groups'].items():
            if g['bad'] and g['bad'][0] == 'failed':
                r['groups'].setdefault(n, g)
                r['groups'][n]['bad'] = g['bad']
    return r


def run1(c, limit):
    t0 = time.time()
    spec.ENV_DICTS = 0
    E.covers = {k: v for k, v in E.covers.items() if k[0] != c.name}
    n0, q0, s0 = len(E.obligations), E.queries, E.solver_time
    E.deadline = time.time() + limit
    E.notes = []
    paths = 0
    try:
        paths = E.explore(c.fn, c.name)
    except BaseException as e:
        E.record('evaluation of the contract', 'unknown', 0, '-', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    obs = E.obligations[n0:]
    for (cn, name), ok in E.covers.items():
        if cn == c.name and not ok and not any(n.startswith('stopped after') for n in E.notes):
            obs.append(core.Obligation(c.name, 'reachable: ' + name, 'failed', 0, 'z3', 'vacuous: no feasible path'))
    groups = {}
    for o in obs:
        g = groups.setdefault(o.name, {'n': 0, 'proved': 0, 'secs': 0., 'backends': {}, 'bad': None, 'props': spec.TAGS.get(o.name)})
        g['n'] += 1
        g['secs'] += o.secs
        g['backends'][o.backend] = g['backends'].get(o.backend, 0) + 1
        if o.status == 'proved':
            g['proved'] += 1
        elif g['bad'] is None or (g['bad'][0] != 'failed' and o.status == 'failed'):
            g['bad'] = (o.status, o.detail[:4000])
    return {'contract': c.name, 'props': c.props, 'functions': c.functions, 'bounded': c.bounded, 'paths': paths,
            'notes': list(E.notes), 'groups': groups, 'wall': time.time() - t0, 'queries': E.queries - q0,
            'bounded_stub': not spec.ENV_DICTS, 'solver_s': E.solver_time - s0, 'loaded': sorted(spec.LOADED)}


if __name__ == '__main__':
    cs = load_all()
    if sys.argv[1] == '--list':
        print('RESULT ' + json.dumps([(c.name, c.props, c.tier, c.bounded) for c in cs]))
    else:
        c = [c for c in cs if c.name == sys.argv[1]][0]
        if len(sys.argv) > 3:
            E.enough = lambda o: o.status == 'failed' and sys.argv[3] in (spec.TAGS.get(o.name) or [sys.argv[3]])
        print('RESULT ' + json.dumps(run(c, float(sys.argv[2]))))
