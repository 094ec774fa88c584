"""Regenerates MANIFEST.json and props.json from the table below and the list of contracts."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run(['/usr/local/bin/python3-vt', '-m', 'vp.worker', '--list'], cwd=HERE, capture_output=True, text=True).stdout
have, free = {}, {}
for n, ps, t, b in json.loads([l for l in out.splitlines() if l.startswith('RESULT ')][0][7:]):
    for p in ps:
        have.setdefault(p, []).append(n)
        if not b and t == 'quick':
            free.setdefault(p, []).append(n)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
sys.path.insert(0, os.path.join(HERE, 'tools'))
from proptable import TABLE, NA
checks, na, meta = [], [], {}
for p in props:
    i = p['id']
    if i not in have:
        na.append({'property': i, 'reason': NA.get(i, 'no contract has been written for it yet')})
        continue
    t = TABLE.get(i, {})
    meta[i] = {k: t[k] for k in ('bounded', 'assumptions', 'trusted') if k in t}
    level = meta[i]['level'] = t.get('level', 'proof' if i in free else 'other')
    checks.append({
        'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'technique': 'contract-based deductive verification: symbolic execution of the real source against contracts, obligations discharged by z3/cvc5'
                     + t.get('technique', ''),
        'level': level,
        'level_note': t.get('note', '') + (' ' if t.get('note') else '') + 'Contracts without bound: %s. Contracts within a stated bound: %s. '
        'Floating point treated as real arithmetic; numpy/xarray/pint by assumed contracts; scenarios on the real code accompany them.' % (
            ', '.join(free.get(i, ())) or 'none', ', '.join(n for n in have[i] if n not in free.get(i, ())) or 'none')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks are needed in /repo; its commits on top of the pinned one are repairs of defects (fix:).'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
json.dump(meta, open(os.path.join(HERE, 'props.json'), 'w'), indent=1, sort_keys=True)
print(len(checks), 'checks,', len(na), 'not applicable')
