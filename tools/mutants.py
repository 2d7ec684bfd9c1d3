"""tools/mutants.py SPEC.py [ids]: exploratory mutants: M(id, 'C01 C02', file, old, new); runs the stable tests and the checks on a scratch clone"""
import json, os, subprocess, sys, shutil, concurrent.futures as cf
TODO_ = []
def M(id, props, file, *pairs):
    TODO_.append((id, os.environ.get('MUT_PROPS', props).split(), file, pairs))
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def run(m):
    id, props, file, pairs = m
    w = f'/tmp/mut/{id}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    p = f'{w}/pelicun/{file}'
    s = open(p).read()
    for old, new in zip(pairs[::2], pairs[1::2]):
        if s.count(old) != 1:
            return id, f'BAD SPEC {s.count(old)} {old[:60]!r}'
        s = s.replace(old, new)
    open(p, 'w').write(s)
    x = f'/tmp/mut/{id}.xml'
    env = dict(os.environ, PYTHONPATH=w)
    subprocess.run(f'. /opt/vp/env.sh; cd {w}; timeout 600 /opt/venv/bin/python -m pytest -q -n 3 -p no:cacheprovider --tb=short --timeout=300 --junitxml={x} -o junit_family=xunit2 pelicun/tests > /tmp/mut/{id}.t 2>&1', shell=True, env=env)
    subprocess.run(['python3', '/opt/vp/results.py', f'/tmp/mut/{id}.json', f'junit:{x}'], stdout=subprocess.DEVNULL)
    try:
        miss = sorted(base - set(json.load(open(f'/tmp/mut/{id}.json'))['passed']))
    except OSError as e:
        miss = [str(e)]
    out = [f'tests miss {len(miss)} {[a.split("::")[-1] for a in miss[:2]]}']
    for c in props:
        r = subprocess.run(['./check', c], cwd=os.environ.get('MUT_VERIF', '/verif'), env=dict(os.environ, PYVC_REPO=w, PYVC_EVIDENCE=f'/tmp/mut/{id}.ev'), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if 'obligation:' in l or 'VIOLATION' in l or l.startswith('OK')]
        out.append(f'{c} rc {r.returncode} ' + ' || '.join(x.strip()[:170] for x in v[-2:]) + ('' if r.returncode in (0, 1) else r.stderr[-200:]))
    shutil.rmtree(w, ignore_errors=True)
    return id, '\n    '.join(out)
todo = [m for m in TODO_ if not want or m[0] in want]
with cf.ThreadPoolExecutor(int(os.environ.get('MUT_J', '3'))) as ex:
    for f in cf.as_completed([ex.submit(run, m) for m in todo]):
        print(*f.result(), flush=True)
