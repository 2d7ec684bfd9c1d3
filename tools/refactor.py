"""tools/refactor.py SPEC.py [sets]: behaviour-preserving edits R(set, file, old, new): the stable tests pass and no check may raise an alarm"""
import json, os, subprocess, sys, shutil
SETS = {}
def R(s, file, old, new):
    SETS.setdefault(s, []).append((file, old, new))
exec(open(sys.argv[1]).read())
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
props = [json.loads(x)['id'] for x in open('/verif/properties.jsonl')]
for s, edits in SETS.items():
    if sys.argv[2:] and s not in sys.argv[2:]:
        continue
    w = f'/tmp/refac/{s}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for f, old, new in edits:
        p = f'{w}/pelicun/{f}'
        t = open(p).read()
        if t.count(old) != 1:
            print(s, 'BAD SPEC', t.count(old), repr(old[:70]), flush=True)
            continue
        open(p, 'w').write(t.replace(old, new))
    x = f'/tmp/refac/{s}.xml'
    subprocess.run(f'. /opt/vp/env.sh; cd {w}; timeout 600 /opt/venv/bin/python -m pytest -q -n 6 -p no:cacheprovider --tb=short --timeout=300 --junitxml={x} -o junit_family=xunit2 pelicun/tests > /tmp/refac/{s}.t 2>&1', shell=True, env=dict(os.environ, PYTHONPATH=w))
    subprocess.run(['python3', '/opt/vp/results.py', f'/tmp/refac/{s}.json', f'junit:{x}'], stdout=subprocess.DEVNULL)
    miss = sorted(base - set(json.load(open(f'/tmp/refac/{s}.json'))['passed']))
    print(s, 'tests miss', len(miss), [a.split('::')[-1] for a in miss[:4]], flush=True)
    for c in os.environ.get('PROPS', '').split() or props:
        r = subprocess.run(['./check', c], cwd='/verif', env=dict(os.environ, PYVC_REPO=w, PYVC_EVIDENCE=f'/tmp/refac/{s}.ev'), capture_output=True, text=True)
        if r.returncode:
            print('  ', s, c, r.returncode, *[l.strip()[:260] for l in r.stdout.splitlines() if 'obligation:' in l or 'VIOLATION' in l], r.stderr[-300:], sep='\n      ', flush=True)
    shutil.rmtree(w, ignore_errors=True)
    print(s, 'done', flush=True)
