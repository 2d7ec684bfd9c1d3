"""Runs the contracts of one property (entry point of every check)."""
import os
import sys

ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1', 'NUMEXPR_NUM_THREADS': '1', 'MPLBACKEND': 'Agg'}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable, '-B', *sys.argv])

import argparse      # noqa: E402
import json          # noqa: E402
import pickle        # noqa: E402
import shutil        # noqa: E402
import signal        # noqa: E402
import tempfile      # noqa: E402
import time          # noqa: E402
import traceback     # noqa: E402
import warnings      # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')


def setup_env(scratch):
    d = os.path.join(scratch, 'dlml')
    os.makedirs(d)
    open(os.path.join(d, 'model_files.txt'), 'w').close()
    with open(os.path.join(d, '.dlml_cache.json'), 'w') as f:
        json.dump({'last_version_check': '2999-01-01T00:00:00'}, f)
    os.environ['DLML_DATA_DIR'] = d
    os.environ['HOME'] = scratch
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    sys.path[:] = [p for p in sys.path if p not in ('', VERIF + '/pyvc')]
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    # the solver bindings live in another environment: use nothing else from there
    vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    sys.path.append(vt)
    import z3     # noqa: F401
    sys.path.remove(vt)
    os.chdir(scratch)
    warnings.simplefilter('ignore')


def child(fn, path):
    """run fn in a forked child, pickling its result to path"""
    pid = os.fork()
    if pid:
        return pid
    code = 0
    try:
        os.setsid()
        d = path + '.cwd'
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        dn = os.open(path + '.log', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        res = fn()
        with open(path + '.tmp', 'wb') as f:
            pickle.dump(res, f)
        os.rename(path + '.tmp', path)
    except BaseException:    # noqa: BLE001
        with open(path + '.err', 'w') as f:
            traceback.print_exc(file=f)
        code = 1
    finally:
        os._exit(code)


def run_tasks(tasks, scratch, jobs, deadline):
    """tasks: [(key, fn, weight)] -> {key: result | ('timeout',) | ('crash', text)}"""
    results, running, queue = {}, {}, sorted(tasks, key=lambda t: -t[2])
    n = 0
    while queue or running:
        while queue and len(running) < jobs:
            key, fn, _ = queue.pop(0)
            n += 1
            p = os.path.join(scratch, f'task{os.getpid()}_{n}_{time.monotonic_ns()}')
            running[child(fn, p)] = (key, p)
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid in running:
            key, p = running.pop(pid)
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    results[key] = ('ok', pickle.load(f))
            else:
                txt = open(p + '.err').read() if os.path.exists(p + '.err') else 'process died'
                results[key] = ('crash', txt)
        elif pid == 0:
            time.sleep(0.01)
        if time.time() > deadline:
            for q, (key, p) in running.items():
                try:
                    os.killpg(q, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(q, 0)
                results[key] = ('timeout',)
            for key, _, _ in queue:
                results[key] = ('timeout',)
            break
    return results


def conc_task(k, seeds, tier, deadline, values=None, stop_known=()):
    from pyvc import contract as C
    out = {'evals': 0, 'held': 0, 'discarded': 0, 'violations': [], 'checks': 0, 'samples': [], 'covers': set(), 'distinct': 0}
    seen = set()
    t0 = time.time()
    labels = set()
    for s in seeds:
        if time.time() > deadline:
            out['cut'] = True
            break
        r, S = C.run_concrete(k, s, values, tier)
        out['evals'] += 1
        out['checks'] += S.checks
        out['covers'] |= S.cov
        if r == 'discard':
            out['discarded'] += 1
        elif r == 'held':
            out['held'] += 1
            h = repr(sorted(S.drawn.items(), key=str))[:4000]
            if h not in seen:
                seen.add(h)
            if len(out['samples']) < 2:
                out['samples'].append({'seed': s, 'inputs': jsonable(S.drawn), 'clauses': S.checks})
        else:
            if r['label'] not in labels:
                labels.add(r['label'])
                out['violations'].append(r)
            if len([v for v in labels if v not in stop_known]) >= 3:
                break
    out['distinct'] = len(seen)
    out['wall'] = time.time() - t0
    return out


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in list(x)[:60]]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:300]


def load(prop):
    import importlib
    from pyvc import contract as C
    importlib.import_module(f'contracts.{prop.lower()}')
    return C.REGISTRY.get(prop, [])


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e['property'] == prop and e.get('status') != 'fixed']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--contract')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--nosym', action='store_true')
    ap.add_argument('--noconc', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='pyvc_')
    try:
        setup_env(scratch)
        rc = run(a, seed, scratch)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run(a, seed, scratch):
    t0 = time.time()
    prop, tier = a.prop, a.tier
    thorough = tier == 'thorough'
    level, level_note = levels().get(prop, ('other', ''))
    try:
        import pelicun
        assert os.path.realpath(pelicun.__file__).startswith(os.path.realpath(REPO)), pelicun.__file__
        contracts = load(prop)
        err = None
    except Exception:   # noqa: BLE001
        contracts, err = [], traceback.format_exc()
    if err is not None or not contracts:
        return finish_broken(prop, tier, seed, level, err or 'no contracts', t0)
    if a.contract:
        contracts = [k for k in contracts if a.contract in k.name]
    if a.replay:
        return replay(a, contracts)
    from pyvc import contract as C

    budget = 2400 if thorough else 420
    soft = t0 + budget * 0.8
    hard = t0 + budget
    kf = known(prop)
    tasks = []
    for k in contracts:
        if k.sym and not a.nosym:
            tmo = (4000, 60000) if thorough else (2000, 12000)
            tasks.append((('sym', k.name), (lambda k=k, tmo=tmo: strip(C.explore(k, soft, tmo))), 10 * k.weight))
        runs = k.runs * (20 if thorough else 1)
        if runs and not a.noconc:
            chunk = max(1, min(runs, (runs + 3) // 4 if runs >= 40 else runs))
            stop_known = tuple(e['label'] for e in kf if e['contract'] == k.name)
            for j in range(0, runs, chunk):
                seeds = [seed * 1000003 + i for i in range(j, min(runs, j + chunk))]
                tasks.append((('conc', k.name, j), (lambda k=k, seeds=seeds, sk=stop_known: conc_task(k, seeds, tier, soft, None, sk)),
                              k.weight))
    res = run_tasks(tasks, scratch, a.jobs, hard)

    # ---- collect
    ev = {'functions_under_contract': sorted({t for k in contracts for t in k.targets}), 'contracts': []}
    proof_obl = proof_dis = bound_obl = bound_dis = 0
    backends, trusted, solver_s = {}, set(), 0.0
    evals = distinct = checks = 0
    samples = []
    concrete = []       # (contract, violation)
    failed = []         # (contract, failure)
    for k in contracts:
        row = {'name': k.name, 'kind': k.kind, 'targets': k.targets}
        if k.bound:
            row['bound'] = k.bound
        if k.sym and not a.nosym:
            r = res.get(('sym', k.name))
            if r[0] != 'ok':
                failed.append((k, {'label': 'verification run', 'kind': r[0], 'info': (r[1][-1500:] if len(r) > 1 else 'time limit'),
                                   'values': {}, 'cases': {}, 'path': []}))
                row['result'] = r[0]
            else:
                o = r[1]
                n, d = o['obligations'], sum(o['discharged'].values())
                if k.kind == 'proof':
                    proof_obl += n
                    proof_dis += d
                else:
                    bound_obl += n
                    bound_dis += d
                for b, c in o['discharged'].items():
                    backends[b] = backends.get(b, 0) + c
                trusted |= set(o['libs'])
                solver_s += o['solver_s']
                row.update(wall=o['wall'], paths=o['paths'], obligations=n, discharged=d, solver_s=round(o['solver_s'], 2),
                           slowest=[round(o['slowest'][0], 2), o['slowest'][1]], clauses=o['labels'])
                for f in o['failures']:
                    failed.append((k, f))
                if not o['complete'] and not o['failures']:
                    failed.append((k, {'label': 'all paths explored', 'kind': 'undischarged', 'info': f'path/time limit, {o["paths"]} paths done',
                                       'values': {}, 'cases': {}, 'path': []}))
                miss = [c for c in k.covers if c not in o['covers']]
                if (miss or n == 0) and not o['failures']:
                    failed.append((k, {'label': 'vacuity guard', 'kind': 'undischarged',
                                       'info': f'not reachable: {miss}; obligations generated: {n}', 'values': {}, 'cases': {}, 'path': []}))
        runs = [v for key, v in res.items() if key[0] == 'conc' and key[1] == k.name]
        if runs:
            e = sum(v[1]['evals'] for v in runs if v[0] == 'ok')
            hd = sum(v[1]['held'] for v in runs if v[0] == 'ok')
            row.update(evaluations=e, held=hd, cwall=round(sum(v[1]['wall'] for v in runs if v[0] == 'ok'), 1), clauses_evaluated=sum(v[1]['checks'] for v in runs if v[0] == 'ok'))
            evals += e
            distinct += sum(v[1]['distinct'] for v in runs if v[0] == 'ok')
            checks += row['clauses_evaluated']
            vac = True
            for v in runs:
                if v[0] == 'ok':
                    vac = vac and v[1]['held'] == 0 and not v[1]['violations']
                    if len(samples) < 4:
                        samples += [{'contract': k.name, **s} for s in v[1]['samples'][:1]]
                    for w in v[1]['violations']:
                        concrete.append((k, w))
                else:
                    vac = False
                    failed.append((k, {'label': 'contract evaluation', 'kind': v[0], 'info': v[1][-1500:] if len(v) > 1 else 'time limit',
                                       'values': {}, 'cases': {}, 'path': []}))
            if vac:
                failed.append((k, {'label': 'vacuity guard', 'kind': 'undischarged', 'info': 'no concrete input satisfied the precondition',
                                   'values': {}, 'cases': {}, 'path': []}))
            if k.kind == 'runtime':
                miss = set(k.covers) - set().union(*[v[1]['covers'] for v in runs if v[0] == 'ok'])
                if miss and not [1 for kk, _ in concrete if kk is k]:
                    failed.append((k, {'label': 'vacuity guard', 'kind': 'undischarged', 'info': f'not reached: {sorted(miss)}',
                                       'values': {}, 'cases': {}, 'path': []}))
        ev['contracts'].append(row)

    # ---- look for a failing input for each failed obligation without one
    have = {k.name for k, _ in concrete}
    todo = []
    seen = set()
    for k, f in failed:
        if k.name in have or (k.name, f['label']) in seen:
            continue
        seen.add((k.name, f['label']))
        todo.append((k, f))
    if todo and not a.noconc:
        lim = time.time() + (300 if thorough else 120)
        tasks = [((k.name, i), (lambda k=k, f=f: search(k, f, seed, tier, lim - 5)), 1) for i, (k, f) in enumerate(todo[:24])]
        for key, r in run_tasks(tasks, scratch, a.jobs, lim).items():
            if r[0] == 'ok' and r[1]:
                concrete.append((next(k for k in contracts if k.name == key[0]), r[1]))

    # ---- verdict
    kset = {(e['contract'], e['label']): e for e in kf}
    out_lines, violations, hit = [], [], set()
    for k, w in concrete:
        if (k.name, w['label']) in kset:
            hit.add((k.name, w['label']))
            continue
        violations.append((k, w, True))
    okc = {k.name for k, _ in concrete}
    for k, f in failed:
        if (k.name, f['label']) in kset:
            hit.add((k.name, f['label']))
            continue
        if k.name in okc and any(v[0].name == k.name for v in violations):
            continue
        violations.append((k, f, False))
    for e in kf:
        if (e['contract'], e['label']) in hit:
            out_lines.append(f'KNOWN-FINDING: property={prop} {e["what"]}')
    out_lines = list(dict.fromkeys(out_lines))
    for ln in out_lines:
        print(ln)

    if a.verbose:
        for row in ev['contracts']:
            print('.', row['name'], row['kind'], 'paths', row.get('paths'), 'obl', row.get('obligations'), 'ok', row.get('discharged'), 'solver', row.get('solver_s'), row.get('slowest'), 'wall', row.get('wall'), 'runs', row.get('evaluations'), 'held', row.get('held'), 'cwall', row.get('cwall'))
        for k, f in failed[:30]:
            print('FAILED', k.name, '|', f['label'], '|', f['kind'], '|', f['info'][:600], '|', json.dumps(jsonable(f['values']))[:400], f['cases'])
            if f.get('path'):
                print('    path:', f['path'][-8:])
        for k, w in concrete[:30]:
            print('CONCRETE', k.name, '|', w['label'], '|', w['detail'][:600], '| seed', w['seed'], '|', json.dumps(jsonable(w['drawn']))[:600])

    rc = 0
    if violations:
        rc = 1
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        best = sorted(violations, key=lambda v: not v[2])
        shown = 0
        names = set()
        for k, w, conc in best:
            if k.name in names or shown >= 5:
                continue
            names.add(k.name)
            shown += 1
            path = os.path.join(rdir, f'{prop}_{k.name.replace("/", "_").replace(" ", "_")}.json')
            doc = {'property': prop, 'contract': k.name, 'obligation': w['label'], 'functions': k.targets}
            if conc:
                doc.update(kind='replayed on the real code', seed=w['seed'], tier=tier, values=w.get('given') or {},
                           inputs=jsonable(w['drawn']), notes=jsonable(w.get('notes', {})), observed=w['detail'],
                           how=f'/verif/check {prop} --replay {path}')
            else:
                doc.update(kind='failed obligation', verifier=w['kind'], output=w['info'], path_condition=w['path'],
                           counterexample=jsonable(w['values']), cases=w['cases'])
            with open(path, 'w') as f:
                json.dump(doc, f, indent=1, default=str)
            print(f'  obligation: {k.name}: {w["label"]}: {str(w.get("detail") or w.get("info"))[:300]}')
            print(f'VIOLATION property={prop} replay={path}' + ('' if conc else ' no-failing-input-found'))
    write_evidence(prop, tier, seed, level, ev, dict(
        obligations=proof_obl, discharged=proof_dis, bounded_obligations=bound_obl, bounded_discharged=bound_dis,
        backends=backends, solver_s=round(solver_s, 2), evaluations=evals, distinct_nontrivial=distinct,
        clauses_evaluated=checks, samples=samples), trusted, t0, len(violations), len(out_lines))
    if rc == 0:
        print(f'OK {prop}: {proof_dis}/{proof_obl} obligations proved, {bound_dis}/{bound_obl} bounded, '
              f'{evals} contract evaluations ({checks} clauses), {time.time() - t0:.1f} s')
    return rc


def strip(o):
    return dict(obligations=o.obligations, discharged=o.discharged, labels=o.labels, covers=o.covers, failures=o.failures,
                wall=o.wall, paths=o.paths, solver_s=o.solver_s, slowest=o.slowest, complete=o.complete, libs=o.libs)


def search(k, f, seed, tier, deadline):
    """a concrete input on the real code that breaks the contract of a failed obligation"""
    from pyvc import contract as C
    base = {'case:' + n: v for n, v in f['cases'].items()}
    vals = {**{n: v for n, v in f['values'].items() if v is not None}, **base}
    tries = []
    if f['values']:
        tries += [(vals, seed * 7 + i) for i in range(30)]
    if base:
        tries += [(base, seed * 11 + i) for i in range(400)]
    tries += [({}, seed * 13 + i) for i in range(600)]
    for v, s in tries:
        if time.time() > deadline:
            return None
        r, S = C.run_concrete(k, s, v, tier)
        if isinstance(r, dict):
            r['given'] = v
            r['from'] = 'model' if v is vals else 'search'
            return r
    return None


def replay(a, contracts):
    from pyvc import contract as C
    d = json.load(open(a.replay))
    k = next((k for k in contracts if k.name == d['contract']), None)
    if k is None:
        print('unknown contract')
        return 1
    if 'seed' not in d:
        print('the replay file carries no failing input:', d.get('output'))
        return 1
    r, S = C.run_concrete(k, d['seed'], d.get('values') or {}, d.get('tier', 'quick'))
    if isinstance(r, dict):
        print(json.dumps(jsonable(r), indent=1))
        print(f'VIOLATION property={a.prop} replay={a.replay}')
        return 1
    print('replay does not fail on this tree')
    return 0


def levels():
    p = os.path.join(VERIF, 'MANIFEST.json')
    try:
        return {c['property']: (c['level'], c['level_note']) for c in json.load(open(p))['checks']}
    except (OSError, ValueError, KeyError):
        return {}


ENGINE_TRUST = [
    'z3 4.x / cvc5 1.1.2 (unsat answers)',
    'pyvc symbolic interpreter objects (operator overloading; cross-checked by running every contract concretely on each run)',
    'CPython executing the function under contract',
    'machine floats treated as mathematical reals (finite values), NaN and infinities as explicit cases',
]


def write_evidence(prop, tier, seed, level, ev, cov, trusted, t0, nviol, nknown):
    tb = ENGINE_TRUST + [f'library contract: {t}' for t in sorted(trusted)]
    c = {**cov, **ev, 'checker_cmd': f'./check {prop}', 'trusted_base': tb, 'known_findings': nknown,
         'rule': 'contract evaluations on the unpatched code: inputs drawn from the precondition by seeded generators; '
                 'non-trivial = precondition satisfied and at least one postcondition evaluated, distinct by drawn inputs',
         'explanation': 'obligations/discharged: unbounded symbolic execution of the real functions under contract; bounded_*: the same '
                        'with enumerated table shapes; evaluations: contracts evaluated on concrete inputs against the real code '
                        '(bounded stand-in and cross-check of the trusted library contracts), never counted as proved'}
    doc = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': c,
           'assumptions': ['floating point treated as real arithmetic in proofs', 'inputs satisfy the preconditions stated in the contracts'],
           'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{prop}.json'), 'w') as f:
        json.dump(jsonable2(doc), f, indent=1, default=str)


def jsonable2(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable2(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable2(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def finish_broken(prop, tier, seed, level, err, t0):
    """the code under contract cannot even be loaded"""
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}_load.json')
    with open(p, 'w') as f:
        json.dump({'property': prop, 'obligation': 'load', 'output': err}, f, indent=1)
    write_evidence(prop, tier, seed, level, {'contracts': []}, {'obligations': 0, 'discharged': 0}, set(), t0, 1, 0)
    print(err)
    print(f'VIOLATION property={prop} replay={p} no-failing-input-found')
    return 1


if __name__ == '__main__':
    main()
