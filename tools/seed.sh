#!/bin/bash
# tools/seed.sh ID [check...]: confirm a planted bug in a scratch copy of /repo and run the check of its property against it
id=$1; shift
d=/verif/seeded/$id; w=/tmp/seedw.$id
rm -rf "$w"; git clone -q /repo "$w" || exit 9
. /opt/vp/env.sh
run() { (cd "$w" && PYTHONPATH=$w timeout 300 bash $d/demo.sh >/tmp/seed.$id.$1 2>&1; echo "demo $1: $?"); }
run clean
git -C "$w" apply $d/patch.diff || { echo NOAPPLY; rm -rf "$w"; exit 9; }
run patched; tail -3 /tmp/seed.$id.patched
(cd "$w" && PYTHONPATH=$w timeout 600 /opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider --tb=short --timeout=300 --junitxml=/tmp/seed.$id.xml -o junit_family=xunit2 pelicun/tests >/tmp/seed.$id.t 2>&1)
python3 /opt/vp/results.py /tmp/seed.$id.json junit:/tmp/seed.$id.xml >/dev/null
python3 - $id <<'P'
import json,sys
d=json.load(open(f'/tmp/seed.{sys.argv[1]}.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('tests missing',[x for x in b['stable'] if x not in set(d['passed'])][:4])
P
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c in ${@:-$p}; do (cd /verif; PYVC_REPO=$w timeout 900 ./check $c >/tmp/seed.$id.check 2>&1; echo "check $c: $?"; grep -m2 VIOLATION /tmp/seed.$id.check | cut -c1-200); done
rm -rf "$w"
