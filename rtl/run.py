"""run.py <property> <seed> <n> [--budget S] | run.py --replay FILE
Prints one JSON line with the results."""
import sys, os, json, time
sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('MPLBACKEND', 'Agg')
import importlib
from rtl import base
HERE = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(HERE)):
    if f.endswith('.py') and f not in ('__init__.py', 'base.py', 'run.py'):
        importlib.import_module('rtl.' + f[:-3])


def main():
    if sys.argv[1] == '--replay':
        rp = json.load(open(sys.argv[2]))
        fn = [f for n, f, w in base.CASES[rp['property']] if n == rp['case']][0]
        v = base.run_case(fn, rp['seed'])
        print(json.dumps(v, indent=1))
        sys.exit(1 if v else 0)
    prop, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    budget = float(sys.argv[4]) if len(sys.argv) > 4 else 1e9
    t0 = time.time()
    out = {'property': prop, 'runs': {}, 'violations': []}
    cases = base.CASES.get(prop, [])
    tot = sum(w for _, _, w in cases) or 1
    for name, fn, w in cases:
        end = t0 + budget * (sum(x for _, _, x in cases[:[c[0] for c in cases].index(name) + 1]) / tot)
        k = max(3, int(n * w))
        done = 0
        for i in range(k):
            if time.time() > end and done >= 3:
                break
            s = (seed * 1000003 + i * 7919 + hash_(name)) & 0x7fffffff
            v = base.run_case(fn, s)
            done += 1
            if v:
                v.update(case=name, seed=s, property=prop)
                out['violations'].append(v)
                break
        out['runs'][name] = done
    out['wall'] = time.time() - t0
    print('RESULT ' + json.dumps(out))


def hash_(s):
    h = 7
    for c in s:
        h = (h * 131 + ord(c)) & 0xffffff
    return h


main()
