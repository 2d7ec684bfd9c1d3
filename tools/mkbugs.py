"""collects the results of tools/mutants.py runs (spec.py log ...) into tools/bugs.json"""
import json, re, sys
out = '/verif/tools/bugs.json'
try:
    R = json.load(open(out))
except OSError:
    R = {}
specs, logs = [a for a in sys.argv[1:] if a.endswith('.py')], [a for a in sys.argv[1:] if not a.endswith('.py')]
S = {}
def M(i, props, f, old, new, *more):
    S[i] = (f, old, new)
for s in specs:
    exec(open(s).read())
for l in logs:
    cur = None
    for line in open(l):
        m = re.match(r'(\S+) tests miss (\d+)', line)
        if m:
            cur = m.group(1) if m.group(2) == '0' and m.group(1) in S else None
            if cur:
                R.setdefault(cur, {'file': S[cur][0], 'caught': {}, 'quiet': []})
            continue
        m = re.match(r'\s+(C\d\d) rc (\d)(.*)', line)
        if m and cur:
            if m.group(2) == '1':
                o = re.search(r'obligation: (.{0,110})', m.group(3))
                R[cur]['caught'][m.group(1)] = o.group(1).strip() if o else ''
                R[cur]['quiet'] = [x for x in R[cur]['quiet'] if x != m.group(1)]
            elif m.group(1) not in R[cur]['caught'] and m.group(1) not in R[cur]['quiet']:
                R[cur]['quiet'].append(m.group(1))
json.dump(R, open(out, 'w'), indent=1)
print(len(R), 'changes', sum(bool(v['caught']) for v in R.values()), 'caught', [k for k, v in R.items() if not v['caught']])
