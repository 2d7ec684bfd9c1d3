"""writes /verif/MANIFEST.json from the contract modules present and the claims below"""
import json, os
V = '/verif'
props = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
TECH = 'contracts on the real functions, discharged by symbolic execution + z3/cvc5 (pyvc)'
PROOF = {}
exec(open(f'{V}/tools/claims.py').read())
checks, na = [], []
for p in props:
    if p in CLAIMS and os.path.exists(f'{V}/contracts/{p.lower()}.py'):
        lvl, note = CLAIMS[p]
        checks.append({'property': p, 'quick_cmd': f'./check {p}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {p}',
                       'technique': TECH if lvl == 'proof' else 'contracts on the real functions, bounded stand-in (contract evaluation'
                       + (' and bounded-shape symbolic execution + z3)' if 'symbolic' in note else ')'),
                       'level': lvl, 'level_note': note})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'not reached yet')})
m = {'version': 1, 'setup_cmd': 'chmod +x check', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed: contracts are sidecar files, the functions under contract are the ones CPython loads from /repo.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
