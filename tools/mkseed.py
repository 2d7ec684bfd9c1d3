"""mkseed.py SPEC.py: each S(id, prop, file, [(old,new)...], needs, breaks, demo) makes /verif/seeded/<id>/"""
import json, os, subprocess, sys, shutil
W = '/tmp/mkseed'
PRE = '''#!/bin/bash
# exits 0 when the property holds in the pelicun of the current directory
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir "$w/dl"; : > "$w/dl/model_files.txt"; echo '{"last_version_check": "2999-01-01T00:00:00"}' > "$w/dl/.dlml_cache.json"
export DLML_DATA_DIR=$w/dl PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD DEMO_TMP=$w
exec 3>&1
/opt/venv/bin/python -W ignore "$here/demo.py"
'''
def S(id, prop, edits, needs, breaks, demo):
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        return
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    for f, old, new in edits:
        p = f'{W}/pelicun/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    patch = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True, check=True).stdout
    open(f'{d}/patch.diff', 'w').write(patch)
    open(f'{d}/demo.sh', 'w').write(PRE)
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo.py', 'w').write(demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    shutil.rmtree(W)
    print('made', id)
exec(open(sys.argv[1]).read())
