"""Development aid (not a check): apply each seeded change to /repo, run the check of its
property, undo the change; prints what caught it.  tryseeds.py [ID ...] [--all-props]"""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    a = subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        if a.returncode:
            print(i, 'DOES NOT APPLY'); continue
        p = subprocess.run([sys.executable, V + '/check.py', prop], capture_output=True, text=True)
        lines = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION') or 'obligation' in l][:3]
        print(i, prop, 'exit', p.returncode, '|', ' || '.join(lines)[:400], flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
