"""tools/automutate.py N SEED [FILE-SUBSTR]: random mutants of functions under contract; those that pass the stable tests are run against the checks of the function"""
import ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys
N, seed = int(sys.argv[1]), int(sys.argv[2])
sub = sys.argv[3] if len(sys.argv) > 3 else ''
R = random.Random(seed)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
root = '/tmp/am'
T = json.loads(subprocess.run(['/root/pp'], input='''
import sys, json, glob, importlib
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); sys.path.insert(0, "/verif")
from pyvc import contract as c
for f in sorted(glob.glob("/verif/contracts/c[0-9]*.py")): importlib.import_module("contracts." + f.split("/")[-1][:-3])
out = {}
for p, l in c.REGISTRY.items():
    for k in l:
        for t in k.targets: out.setdefault(t, []).append(p)
print("JSON" + json.dumps(out))
''', capture_output=True, text=True, shell=False).stdout.split('JSON')[1])
cost = {}
for p in {p for l in T.values() for p in l}:
    try:
        cost[p] = json.load(open(f'/verif/evidence/{p}.json')).get('wall_s', 60)
    except Exception:
        cost[p] = 60
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&'}
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'lower': 'upper', 'upper': 'lower', 'first': 'last', 'ffill': 'bfill', 'cumsum': 'copy', 'intersection': 'union', 'union': 'intersection', 'issubset': 'issuperset'}


def candidates(src, fn):
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or re.match(r'(self\.)?(_?log|logger|log_msg|print|warnings|self\.log|self\._asmnt\.log)', seg(n)))) or isinstance(n, ast.JoinedStr) or (isinstance(n, ast.Assign) and re.match(r'(msg|err)', seg(n))):
            skip.update(map(id, ast.walk(n)))
    for d in [*fn.decorator_list, fn.args, *([fn.returns] if fn.returns else [])]:
        skip.update(map(id, ast.walk(d)))
    for n in ast.walk(fn):
        if isinstance(n, ast.AnnAssign):
            skip.update(map(id, ast.walk(n.annotation)))
    out = []
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            out.append((*pos(n), f'{seg(n.left)} {SWAP[type(n.ops[0])]} {seg(n.comparators[0])}'))
        if isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            out.append((*pos(n), '(' + w.join(f'({seg(v)})' for v in n.values) + ')'))
            for v in n.values:
                out.append((*pos(n), '(' + seg(v) + ')'))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            out.append((*pos(n), f'(({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)}))'))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((*pos(n), str(not n.value)))
            elif isinstance(n.value, (int, float)):
                out.append((*pos(n), str(n.value + R.choice([1, -1]))))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            out.append((*pos(n), f'({seg(n.operand)})'))
        if isinstance(n, ast.If) and not isinstance(n.test, ast.Constant):
            out += [(*pos(n.test), f'not ({seg(n.test)})'), (*pos(n.test), 'True'), (*pos(n.test), 'False')]
        if isinstance(n, ast.IfExp):
            out += [(*pos(n), f'({seg(n.body)})'), (*pos(n), f'({seg(n.orelse)})')]
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break)) and n is not fn:
            out.append((*pos(n), 'pass'))
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    x = seg(n)
                    y = re.sub(r',?\s*\b' + k.arg + r'\s*=\s*' + re.escape(seg(k.value)), '', x, count=1)
                    if y != x:
                        out.append((*pos(n), y.replace('(,', '(')))
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in ('copy', 'sort_index', 'fillna', 'abs', 'astype', 'reset_index', 'dropna', 'drop', 'ravel', 'flatten', 'squeeze', 'strip'):
                    out.append((*pos(n), seg(n.func.value)))
                if n.func.attr in NAMES:
                    out.append((*pos(n.func), f'{seg(n.func.value)}.{NAMES[n.func.attr]}'))
    return b, out


pool = []
for t in T:
    parts = t.split('.')
    for i in range(len(parts) - 1, 0, -1):
        f = '/repo/' + '/'.join(parts[:i]) + '.py'
        if os.path.exists(f):
            break
    else:
        continue
    if not re.search(sub, f):
        continue
    src = open(f).read()
    node = ast.parse(src)
    for nm in parts[i:]:
        node = next((x for x in node.body if getattr(x, 'name', None) == nm), None)
        if node is None:
            break
    if node is None or not isinstance(node, ast.FunctionDef):
        continue
    b, c = candidates(src, node)
    pool += [(t, f[len('/repo/'):], b, x) for x in c]
print(len(pool), 'candidates', flush=True)
R.shuffle(pool)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def run(i, m):
    t, f, b, (s, e, new) = m
    w = f'{root}/{seed}_{i}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    try:
        old = b[s:e].decode()
        line = b[:s].count(b'\n') + 1
        x = b[:s] + new.encode() + b[e:]
        try:
            ast.parse(x)
        except SyntaxError:
            return None
        open(f'{w}/{f}', 'wb').write(x)
        head = f'{t} line {line}: {old[:150]!r} -> {new[:150]!r}'
        env = dict(os.environ, PYTHONPATH=w)
        xml = f'{w}.xml'
        sh(f'. /opt/vp/env.sh; cd {w}; timeout 300 /opt/venv/bin/python -m pytest -q -n 2 -p no:cacheprovider --tb=no --timeout=100 --junitxml={xml} -o junit_family=xunit2 pelicun/tests', env=env)
        sh(f'python3 /opt/vp/results.py {w}.json junit:{xml}')
        try:
            miss = base - set(json.load(open(f'{w}.json'))['passed'])
        except OSError:
            miss = [1]
        if miss:
            return f'tested {head}'
        done = []
        for p in sorted(set(T[t]), key=lambda p: cost[p]):
            r = sh(f'./check {p}', cwd=os.environ.get('MUT_VERIF', '/verif'), env=dict(os.environ, PYVC_REPO=w, PYVC_EVIDENCE=f'{w}.ev'))
            done.append(p)
            if r.returncode == 1:
                o = [l.strip() for l in r.stdout.splitlines() if 'obligation:' in l or 'VIOLATION' in l]
                return f'CAUGHT {p} {head} || {o[-2][:120] if len(o) > 1 else o}' + (' NFI' if o and o[-1].endswith('found') else '')
            if r.returncode:
                return f'ERROR {p} {head} {r.stderr[-300:]}'
        return f'SURVIVED {done} {head}'
    finally:
        shutil.rmtree(w, ignore_errors=True)
        sh(f'rm -rf {w}.xml {w}.json {w}.ev')


os.makedirs(root, exist_ok=True)
with cf.ThreadPoolExecutor(int(os.environ.get('MUT_J', '4'))) as ex:
    for x in cf.as_completed([ex.submit(run, i, m) for i, m in enumerate(pool[:N])]):
        if x.result():
            print(x.result(), flush=True)
