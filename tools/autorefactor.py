"""tools/autorefactor.py SET [files]: mechanical behaviour-preserving rewrites of all of pelicun on a scratch clone; the stable
tests pass and no check may raise an alarm.  SET: flip (if/else inverted, results named, loops enumerated, locals renamed),
wrap (every function body moved to a helper), both"""
import ast, json, os, shutil, subprocess, sys, glob
kind = sys.argv[1]


class Flip(ast.NodeTransformer):
    def __init__(self): self.n = 0; self.infn = 0
    def visit_FunctionDef(self, n):
        self.infn += 1
        self.generic_visit(n)
        self.infn -= 1
        if not self.infn:
            rename(n)
        return n
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            t = n.test
            n.test = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            n.body, n.orelse = n.orelse, n.body
        return n
    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)) or not self.infn:
            return n
        self.n += 1
        v = f'outcome_{self.n}'
        return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]
    def visit_For(self, n):
        self.generic_visit(n)
        if not self.infn:
            return n
        self.n += 1
        n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
        n.target = ast.Tuple([ast.Name(f'pos_{self.n}', ast.Store()), n.target], ast.Store())
        return n


def rename(fn):
    """locals that are only assigned by plain statements get another name"""
    nested = [x for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not fn]
    bad = {a.arg for x in [fn, *nested] if not isinstance(x, ast.ClassDef) for a in ast.walk(x.args) if isinstance(a, ast.arg)}
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global, ast.Nonlocal)): bad |= set(x.names)
        if isinstance(x, ast.ExceptHandler) and x.name: bad.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)): bad |= {(a.asname or a.name).split('.')[0] for a in x.names}
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)): bad.add(x.name)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'eval', 'exec', 'vars'): return
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and '@' in x.value: return
    st = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - bad
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in st and not x.id.startswith(('outcome_', 'pos_')):
            x.id = x.id + '_v'


class Wrap(ast.NodeTransformer):
    """def f(a, b=1): body  ->  def f_body(a, b=1): body; def f(a, b=1): return f_body(a, b)"""
    def __init__(self): self.cls = []
    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        n.body = self.stmts(n.body, True)
        self.cls.pop()
        return n
    def visit_Module(self, n):
        n.body = self.stmts(n.body, False)
        return n
    def stmts(self, body, incls):
        out = []
        for x in body:
            if isinstance(x, ast.ClassDef):
                out.append(self.visit_ClassDef(x))
            elif isinstance(x, ast.FunctionDef) and self.ok(x, incls):
                import copy
                h = copy.deepcopy(x)
                h.name = ('_' if not x.name.startswith('_') else '') + x.name.replace('__', '_dunder_') + '_body' if x.name.startswith('__') else x.name + '_body'
                if not h.name.startswith('_'): h.name = '_' + h.name
                a = x.args
                args = [ast.Name(v.arg, ast.Load()) for v in a.posonlyargs + a.args]
                doc = x.body[:1] if isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant) else []
                if doc and len(h.body) > 1: h.body = h.body[1:]
                if a.vararg: args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
                kw = [ast.keyword(v.arg, ast.Name(v.arg, ast.Load())) for v in a.kwonlyargs]
                if a.kwarg: kw.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
                if incls:
                    f = ast.Attribute(args.pop(0), h.name, ast.Load())
                else:
                    f = ast.Name(h.name, ast.Load())
                x.body = doc + [ast.Return(ast.Call(f, args, kw))]
                out += [h, x]
            else:
                out.append(x)
        return out
    def ok(self, x, incls):
        if x.decorator_list or (incls and not x.args.args): return False
        if x.name.startswith('__') and x.name != '__init__' or x.name == '__init__': return False
        for y in ast.walk(x):
            if isinstance(y, (ast.Yield, ast.YieldFrom)): return False
            if isinstance(y, ast.Name) and y.id in ('super', '__class__', 'locals', 'inspect'): return False
        return True


base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
props = os.environ.get('PROPS', '').split() or [json.loads(x)['id'] for x in open('/verif/properties.jsonl')]
w = f'/tmp/refac/auto_{kind}'
shutil.rmtree(w, ignore_errors=True)
subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
files = sys.argv[2:] or ['uq.py', 'base.py', 'file_io.py', 'auto.py', 'assessment.py', 'model/asset_model.py', 'model/damage_model.py', 'model/demand_model.py',
                         'model/loss_model.py', 'model/pelicun_model.py', 'tools/DL_calculation.py', 'tools/NNR.py', 'tools/dlml.py', 'tools/regional_sim.py']
for f in files:
    p = f'{w}/pelicun/{f}'
    t = ast.parse(open(p).read())
    for k in {'flip': [Flip], 'wrap': [Wrap], 'both': [Flip, Wrap]}[kind]:
        t = k().visit(t)
    ast.fix_missing_locations(t)
    open(p, 'w').write(ast.unparse(t) + '\n')
x = f'/tmp/refac/auto_{kind}.xml'
subprocess.run(f'. /opt/vp/env.sh; cd {w}; timeout 600 /opt/venv/bin/python -m pytest -q -n 6 -p no:cacheprovider --tb=short --timeout=300 --junitxml={x} -o junit_family=xunit2 pelicun/tests > /tmp/refac/auto_{kind}.t 2>&1', shell=True, env=dict(os.environ, PYTHONPATH=w))
subprocess.run(['python3', '/opt/vp/results.py', f'/tmp/refac/auto_{kind}.json', f'junit:{x}'], stdout=subprocess.DEVNULL)
miss = sorted(base - set(json.load(open(f'/tmp/refac/auto_{kind}.json'))['passed']))
print(kind, 'tests miss', len(miss), [a.split('::')[-1] for a in miss[:12]], flush=True)
if os.environ.get('NOCHECK'):
    sys.exit()
for c in props:
    r = subprocess.run(['./check', c], cwd='/verif', env=dict(os.environ, PYVC_REPO=w, PYVC_EVIDENCE=f'/tmp/refac/{kind}.ev'), capture_output=True, text=True)
    if r.returncode:
        print('  ', kind, c, r.returncode, *[l.strip()[:300] for l in r.stdout.splitlines() if 'obligation:' in l or 'VIOLATION' in l], r.stderr[-300:], sep='\n      ', flush=True)
print(kind, 'done', flush=True)
