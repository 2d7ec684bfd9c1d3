"""C20 cloned demands are exact copies with their own units"""
import numpy as np
import pandas as pd
from pelicun.model import demand_model
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite
from contracts.util import *

DM = 'pelicun.model.demand_model.DemandModel.'
FACT = {'g': 9.80665, 'inps': 0.0254, 'rad': 1.0, 'unitless': 1.0, 'mps2': 1.0, 'mps': 1.0, 'ftps2': 0.3048, 'cmps': 0.01}


def plan(cols, request):
    """column of the result -> column of the source, from the request"""
    out = {}
    for c in cols:
        for t in request.get('-'.join(c), ['-'.join(c)]):
            out[tuple(t.split('-'))] = c
    return out


def check(S, sample, units, cells, unit_of, request, n, near=False):
    want = plan(list(cells), request)
    S.ensure('exactly the requested and the other demands', sorted(map(tuple, sample.columns)) == sorted(want), f'{list(sample.columns)} {request}')
    S.ensure('realizations kept', len(sample) == n)
    listed = {tuple(c): units[c] for c in units.index}
    S.ensure('no units for unknown demands', set(listed) <= set(want) and len(listed) == len(units), f'{listed}')
    for t, c in want.items():
        v = sample[t].to_numpy()
        for i in range(n):
            if S.symbolic:
                S.ensure('exactly the values of the source', S.eq(v[i], cells[c][i]), f'{t} from {c}')
            else:
                S.ensure('exactly the values of the source', bool(np.isclose(v[i], cells[c][i], rtol=1e-9, atol=0)) if near else v[i] == cells[c][i], f'{t} from {c}: {v[i]} instead of {cells[c][i]}')
        S.ensure('the unit of the source', listed.get(t) == unit_of.get(c), f'{t}: {listed.get(t)} instead of {unit_of.get(c)}')


@contract('C20', 'cloning', [DM + 'clone_demands'], kind='bounded', modules=[demand_model], runs=300, max_paths=20000,
          bound='symbolic: 3 demands with arbitrary values, with and without units, 1-2 realizations, requests listed in the harness; concrete: up to 12 demands x 10 realizations, any request',
          covers=['cloned', 'replaced', 'missing source', 'duplicate', 'name taken', 'no unit'])
def cloning(S):
    if S.symbolic:
        cols = S.case('columns', [[('PID', '1', '1'), ('PFA', '1', '1'), ('PGV', '0', '1')], [('PFA', '0', '2'), ('PGV', '0', '1'), ('PFA', '0', '1')]])
        n = S.case('n', [1, 2])
        cells = {c: [S.real(f'd{i}_{r}') for r in range(n)] for i, c in enumerate(cols)}
        k = ['-'.join(c) for c in cols]
        request = S.case('request', [{}, {k[0]: [k[0]]}, {k[1]: [k[1], 'X-1-1', 'X-1-2']}, {k[0]: ['Y-0-1'], k[2]: ['Y-0-2', k[2]]}, {k[2]: []}, {'Z-1-1': ['Z-1-1']}, {k[0]: ['X-1-1', 'X-1-1']}, {k[0]: ['X-1-1'], k[1]: ['X-1-1']}, {k[0]: [k[1]], k[1]: [k[0]]}, {k[0]: [k[1]]}, {k[2]: [k[2], k[0]]}])
        unit_of = {c: u for c, u in zip(cols, S.case('units', [['rad', 'g', 'mps'], [None, 'g', 'mps'], ['rad', None, 'mps']])) if u}
    else:
        pool = [(t, str(l), d) for t in ('PID', 'PFA', 'PGV', 'SA_1.0') for l in range(13) for d in ('1', '2')]
        cols = [pool[int(i)] for i in S.rng.permutation(len(pool))[:S.int('demands', 1, 12)]]
        n = S.int('n', 1, 10)
        cells = {c: [float(x) for x in S.rng.normal(size=n)] for c in cols}
        unit_of = {c: str(S.rng.choice(list(FACT))) for c in cols if S.rng.random() < 0.8}
        request, used = {}, set()
        for c in cols:
            if S.rng.random() < 0.5:
                names = [f'C-{int(x)}-1' for x in S.rng.permutation(200)[:int(S.rng.integers(0, 4))]]
                if S.rng.random() < 0.6:
                    names.insert(int(S.rng.integers(0, len(names) + 1)), '-'.join(c))
                if S.rng.random() < 0.05:
                    names.append('-'.join(cols[int(S.rng.integers(len(cols)))]))
                names = [x for x in names if x not in used]
                used |= set(names)
                request['-'.join(c)] = names
        if S.rng.random() < 0.2:
            request['NOPE-1-1'] = ['NOPE-1-2']
        if S.rng.random() < 0.1 and used:
            request[list(request)[0]] = [*request[list(request)[0]], sorted(used)[0], sorted(used)[0]]
        S.drawn.update(request=request, units={str(k): v for k, v in unit_of.items()}, columns=cols)
    m = demand_model.DemandModel(full_assessment())
    m.sample = pd.DataFrame(np.array([[cells[c][r] for c in cells] for r in range(n)], dtype=object if S.symbolic else float).reshape(n, len(cols)), columns=pd.MultiIndex.from_tuples(cols, names=['type', 'loc', 'dir']))
    m.user_units = pd.Series(list(unit_of.values()), index=pd.MultiIndex.from_tuples(list(unit_of), names=['type', 'loc', 'dir']) if unit_of else pd.MultiIndex.from_arrays([[], [], []]), dtype=object)
    keep = copy.deepcopy(request)
    before, s0 = m.sample, m.sample.copy(deep=True)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = S.call(m.clone_demands, request)
    S.ensure('request kept', request == keep)
    flat = [x for v in request.values() for x in v]
    if len(set(flat)) != len(flat):
        S.refused('the same clone twice is refused', r, 'ValueError')
        S.ensure('sample kept', m.sample is before)
        S.cover('duplicate')
        return
    if len(set(plan(cols, request))) != sum(len(request.get('-'.join(c), [0])) for c in cols):
        S.refused('a clone with the name of another demand is refused', r, 'ValueError')
        S.ensure('sample kept', m.sample is before)
        S.cover('name taken')
        return
    S.no_raise('cloned', r)
    S.ensure('labels of the levels kept', list(m.sample.columns.names) == ['type', 'loc', 'dir'])
    check(S, m.sample, m.user_units, cells, unit_of, request, n)
    if any(x not in {'-'.join(c) for c in cols} for x in request):
        S.cover('missing source')
    if len(unit_of) < len(cols):
        S.cover('no unit')
    for k, v in request.items():
        S.cover('cloned' if k in v else 'replaced')


@contract('C20', 'loading', [DM + 'load_sample'], kind='runtime', runs=200, bound='up to 12 demands x 10 realizations', covers=['event id', 'no unit', 'blanks', 'errors'])
def loading(S):
    pool = [(t, str(l), d) for t in ('PID', 'PFA', 'PGV', 'SA_1.0') for l in range(13) for d in ('1', '2')]
    cols = [pool[int(i)] for i in S.rng.permutation(len(pool))[:S.int('demands', 1, 12)]]
    n = S.int('n', 1, 10)
    cells = {c: [float(x) for x in S.rng.lognormal(size=n)] for c in cols}
    unit_of = {c: str(S.rng.choice(list(FACT))) for c in cols if S.rng.random() < 0.8}
    if not unit_of:
        return
    ev, blank, err = S.rng.random() < 0.3, S.rng.random() < 0.3, S.rng.random() < 0.3
    name = lambda c: tuple((f' {x} ' if blank and S.rng.random() < 0.5 else x) for x in c)
    t = {}
    for c in cols:
        t[(('1', *name(c)) if ev else name(c))] = [*cells[c], unit_of.get(c, np.nan)]
    rows = [*range(n), 'Units']
    bad = [False] * n
    if err:
        bad = [bool(S.rng.random() < 0.4) for _ in range(n)]
        t[('1', 'ERROR', '0', '0') if ev else ('ERROR', '0', '0')] = [*map(float, bad), np.nan]
        S.cover('errors')
    d = pd.DataFrame(t, index=rows)
    d.columns = pd.MultiIndex.from_tuples(list(t))
    if ev:
        S.cover('event id')
    if blank:
        S.cover('blanks')
    if len(unit_of) < len(cols):
        S.cover('no unit')
    m = demand_model.DemandModel(full_assessment())
    snap = d.copy(deep=True)
    with quiet():
        r = S.call(m.load_sample, d)
    S.no_raise('loaded', r)
    S.ensure('table kept', d.equals(snap))
    want = {c: [v * FACT[unit_of[c]] if c in unit_of else v for v, b in zip(cells[c], bad) if not b] for c in cols}
    check(S, m.sample, m.user_units, want, unit_of, {}, n - sum(bad), near=True)


@contract('C20', 'generated samples', [DM + 'generate_sample', DM + 'clone_demands', 'pelicun.assessment.DLCalculationAssessment.calculate_demand'], kind='runtime', runs=80, bound='up to 10 demands x 20 realizations', covers=['tables', 'calculation'])
def generated(S):
    import os
    import warnings
    from pelicun import assessment
    pool = [(t, str(l), d) for t in ('PID', 'PFA', 'PGV') for l in range(13) for d in ('1', '2')]
    cols = [pool[int(i)] for i in S.rng.permutation(len(pool))[:S.int('demands', 1, 10)]]
    n = S.int('n', 3, 20)
    unit_of = {c: {'PID': 'rad', 'PFA': str(S.rng.choice(['g', 'ftps2'])), 'PGV': str(S.rng.choice(['inps', 'mps']))}[c[0]] for c in cols}
    data = {c: [float(x) for x in S.rng.lognormal(size=n)] for c in cols}
    t = pd.DataFrame(data).astype(object)
    t.columns = pd.MultiIndex.from_tuples(cols)
    t.loc['Units'] = [unit_of[c] for c in cols]
    request = {}
    for i, c in enumerate(cols):
        if S.rng.random() < 0.5:
            request['-'.join(c)] = [f'C{i}-{int(x)}-1' for x in S.rng.permutation(20)[:int(S.rng.integers(1, 3))]] + (['-'.join(c)] if S.rng.random() < 0.6 else [])
    if not request:
        return
    S.drawn.update(request=request)
    a = assessment.DLCalculationAssessment({'Verbose': False, 'PrintLog': False, 'LogFile': None, 'Seed': S.int('rng', 1, 10 ** 6)})
    keep = copy.deepcopy(request)
    with tempdir() as d, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if S.case('through', ['tables', 'calculation']) == 'tables':
            S.cover('tables')
            a.demand.load_sample(t)
            a.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
            r = S.call(a.demand.generate_sample, {'SampleSize': n, 'PreserveRawOrder': True, 'DemandCloning': request})
        else:
            S.cover('calculation')
            x = t.copy()
            x.columns = ['-'.join(c) for c in cols]
            x.to_csv(os.path.join(d, 'r.csv'))
            r = S.call(a.calculate_demand, demand_path=os.path.join(d, 'r.csv'), collapse_limits=None, length_unit=None, demand_calibration=None, sample_size=n, demand_cloning=request, residual_drift_inference=None, coupled_demands=True)
    S.no_raise('generated', r)
    S.ensure('request kept', request == keep)
    s, u = a.demand.sample, a.demand.user_units
    if ('ONE', '0', '1') in s.columns:
        s, u = s.drop(columns=[('ONE', '0', '1')]), u.drop(('ONE', '0', '1'))
    s = s[[c for c in s.columns]]
    check(S, s, u, {c: [v * FACT[unit_of[c]] for v in data[c]] for c in cols}, unit_of, request, n, near=True)
