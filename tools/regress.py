"""tools/regress.py [hashes]: takes each repair back in a scratch clone and runs the check of its property, which has to report it again"""
import os, shutil, subprocess, sys, json, concurrent.futures as cf
entries = [e for e in json.load(open('/verif/known_findings.json')) if e['status'] == 'fixed']
def run(e):
    h, prop = e['commit'], e['property']
    w = f'/tmp/reg/{h}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    d = subprocess.run(['git', '-C', '/repo', 'show', h], capture_output=True, text=True).stdout
    r = subprocess.run(['git', 'apply', '-R', '-3'], input=d, text=True, cwd=w, capture_output=True)
    if r.returncode:
        shutil.rmtree(w, ignore_errors=True)
        return h, prop, 'CONFLICT', e['what'][:80]
    r = subprocess.run(['./check', prop], cwd='/verif', env=dict(os.environ, PYVC_REPO=w, PYVC_EVIDENCE=f'/tmp/reg/{h}.ev'), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if 'obligation:' in l]
    shutil.rmtree(w, ignore_errors=True)
    return h, prop, 'rc', r.returncode, e['what'][:80], '||', (v or [''])[0].strip()[:150]
todo = [e for e in entries if not sys.argv[1:] or e['commit'] in sys.argv[1:]]
with cf.ThreadPoolExecutor(int(os.environ.get('MUT_J', '3'))) as ex:
    for f in cf.as_completed([ex.submit(run, m) for m in todo]):
        print(*f.result(), flush=True)
