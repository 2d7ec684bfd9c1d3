"""C33 demand samples hold exactly the retained realizations and the added demands"""
import os
import warnings
import numpy as np
import pandas as pd
from pelicun import assessment, base, file_io
from pelicun.model import demand_model
from pyvc import arrays
from pyvc.contract import contract, Raised
from contracts.util import *
from contracts.c22 import soft

DM = 'pelicun.model.demand_model.DemandModel.'
DL = 'pelicun.assessment.DLCalculationAssessment.calculate_demand'
FACT = {'g': 9.80665, 'inps': 0.0254, 'rad': 1.0, 'unitless': 1.0, 'mps2': 1.0, 'mps': 1.0, 'ftps2': 0.3048, 'cmps': 0.01, 'inchps2': 0.0254, 'inchps': 0.0254, 'inch': 0.0254, 'in': 0.0254, 'ft': 0.3048, 'ftps': 0.3048,
        'm': 1.0, 'cm': 0.01, 'cmps2': 0.01}
KINDS = {'acc': ['PFA', 'PGA', 'SA_1.0', 'SA_0.3'], 'vel': ['PFV', 'PWS', 'PGV', 'SV_1.0'], 'disp': ['PFD', 'PIH', 'SD_1.0', 'PGD'], 'rot': ['PID', 'PRD', 'DWD', 'RDR', 'PMD', 'RID']}
POOL = [(t, str(l), d) for t in ('PID', 'PFA', 'PGV', 'SA_1.0', 'PRD') for l in range(13) for d in ('1', '2')]
UNITS = {'PID': ['rad', 'unitless'], 'PRD': ['rad'], 'PFA': ['g', 'ftps2', 'mps2'], 'PGV': ['inps', 'mps', 'cmps'], 'SA_1.0': ['g', 'ftps2'], 'PGA': ['g', 'mps2']}


def demands(S, k):
    return [POOL[int(i)] for i in S.rng.permutation(len(POOL))[:k]]


def dl(S, **k):
    return assessment.DLCalculationAssessment({'Verbose': False, 'PrintLog': False, 'LogFile': None, 'Seed': S.int('rng', 1, 10 ** 6), **k})


@contract('C33', 'added demand', [DM + 'expand_sample', DM + 'save_sample', DM + 'load_sample'], kind='bounded', modules=[demand_model, file_io], runs=200, max_paths=20000,
          bound='symbolic: two demands by 1-2 realizations with any values, factors and added values; concrete: up to 10 demands by 12 realizations', covers=['single value', 'values', 'wrong length', 'replaced', 'no unit'])
def added(S):
    a = full_assessment()
    if S.symbolic:
        cols = [('PFA', '1', '1'), ('PID', '2', '1')]
        n = S.case('n', [1, 2])
        us = S.case('units', [('u', 'v'), ('v', None)])
        F = {u: S.real('f_' + u, gt=0.0, scale=3) for u in 'uv'}
        unit = S.case('unit', ['u', 'v'])
        cells = {c: [S.real(f'x{i}_{r}') for r in range(n)] for i, c in enumerate(cols)}
    else:
        cols = demands(S, S.int('demands', 1, 10))
        n = S.int('n', 1, 12)
        us = [str(S.rng.choice(UNITS[c[0]])) if i == 0 or S.rng.random() < 0.8 else None for i, c in enumerate(cols)]
        F = dict(a.unit_conversion_factors)
        unit = str(S.rng.choice(['g', 'inps', 'unitless', 'mps2', 'cmps']))
        cells = {c: [float(x) for x in S.rng.lognormal(size=n)] for c in cols}
    a.unit_conversion_factors = F
    kind = S.case('added', ['single value', 'values', 'wrong length'])
    where = S.case('place', [None, ('3', '2'), ('0', '1'), 'replaced'])
    label, place = 'NEW', where
    if where == 'replaced':
        label, place = cols[0][0], cols[0][1:]
    k = n if kind == 'values' else n + 1
    if kind == 'single value':
        value = S.real('value')
        want = [value] * n
    else:
        want = [S.real(f'v{i}') for i in range(k)]
        value = np.empty(k, dtype=object if S.symbolic else float)
        value[:] = want
    S.cover(kind)
    if where == 'replaced':
        S.cover('replaced')
    if None in us:
        S.cover('no unit')
    m = a.demand
    m.sample = pd.DataFrame(np.array([[cells[c][r] for c in cols] for r in range(n)], dtype=object if S.symbolic else float).reshape(n, len(cols)), columns=pd.MultiIndex.from_tuples(cols, names=['type', 'loc', 'dir']))
    unit_of = {c: u for c, u in zip(cols, us) if u}
    m.user_units = pd.Series(list(unit_of.values()), index=pd.MultiIndex.from_tuples(list(unit_of), names=['type', 'loc', 'dir']), dtype=object, name='Units')
    before = m.sample
    with quiet(), warnings.catch_warnings(), soft(S):
        warnings.simplefilter('ignore')
        r = S.call(m.expand_sample, label, value, unit, **({} if place is None else {'location': place[0], 'direction': place[1]}))
    if kind == 'wrong length':
        S.refused('values for other realizations are refused', r, 'ValueError')
        S.ensure('sample kept', m.sample is before)
        return
    S.no_raise('added', r)
    new = (label, *(place or ('0', '1')))
    got = m.sample
    S.ensure('the demands and the added one', sorted(map(tuple, got.columns)) == sorted({*cols, new}), f'{list(got.columns)}')
    S.ensure('the same realizations', len(got) == n)
    units = {tuple(c): u for c, u in m.user_units.items()}
    S.ensure('units of all demands', units == {**unit_of, new: unit}, f'{units}')
    close = lambda x, y: S.eq(x, y) if S.symbolic else bool(np.isclose(x, y, rtol=1e-9, atol=1e-300))
    for c in cols:
        if c == new:
            continue
        v = got[c].to_numpy()
        for i in range(n):
            S.ensure('other demands are unchanged', close(v[i], cells[c][i]), f'{c}')
    v = got[new].to_numpy()
    for i in range(n):
        S.ensure('the added values in their own unit', close(v[i], want[i] * F[unit]), f'{v} {want}')


@contract('C33', 'before a sample', [DM + 'expand_sample', DM + 'estimate_RID_and_adjust_sample'], kind='runtime', runs=4, bound='no sample')
def nothing(S):
    with quiet():
        m = full_assessment().demand
        S.refused('nothing to extend', S.call(m.expand_sample, 'X', 1.0, 'unitless'), 'ValueError')
        S.refused('nothing to estimate from', S.call(m.estimate_RID_and_adjust_sample, {'yield_drift': 0.01}), 'ValueError')


def written(S, d, cells, units, event, shuffle=True, blank=False):
    x = pd.DataFrame(cells).astype(object)
    x.columns = [('1-' if event else '') + ('- '.join(c) if blank else '-'.join(c)) for c in cells]
    if units:
        x.loc['Units'] = [units[c] for c in cells]
    f = os.path.join(d, 'response.csv')
    x.to_csv(f)
    return f


@contract('C33', 'retained realizations', [DL, DM + 'load_sample', 'pelicun.assessment._add_units'], kind='runtime', runs=150, bound='up to 10 demands by 25 realizations, up to 3 collapse limits', covers=['limit', 'no limit', 'errors', 'event id', 'inferred units', 'text limit', 'integer limit', 'resampled', 'two directions'])
def retained(S):
    r = S.rng
    n = S.int('n', 2, 25)
    cols = demands(S, S.int('demands', 1, 10))
    event = bool(r.random() < 0.3)
    infer = bool(r.random() < 0.4)
    length = str(r.choice(['in', 'ft', 'm', 'inch']))
    u = {c: str(r.choice(UNITS[c[0]])) for c in cols}
    if infer:
        L = 'inch' if length == 'in' else length
        u = {c: {'PID': 'unitless', 'PRD': 'unitless', 'PFA': L + 'ps2', 'PGV': L + 'ps', 'SA_1.0': L + 'ps2'}[c[0]] for c in cols}
        S.cover('inferred units')
    cells = {c: [float(x) for x in r.lognormal(size=n).round(6)] for c in cols}
    types = sorted({c[0] for c in cols})
    limits = {}
    for t in r.permutation(types)[:int(r.integers(0, 4))]:
        x = float(np.quantile([max(cells[c][i] for c in cols if c[0] == t) for i in range(n)], r.uniform(0.3, 1.1, 1).clip(0, 1)[0]))
        k = int(r.integers(3))
        if k == 0:
            limits[str(t)] = x
        elif k == 1:
            limits[str(t)] = repr(x)
            S.cover('text limit')
        else:
            limits[str(t)] = int(np.ceil(x))
            S.cover('integer limit')
    bad = [any(max(cells[c][i] for c in cols if c[0] == t) > float(x) for t, x in limits.items()) for i in range(n)]
    err = [False] * n
    table = dict(cells)
    if r.random() < 0.3 and not infer:
        err = [bool(r.random() < 0.3) for _ in range(n)]
        table['ERROR', '0', '0'] = [float(x) for x in err]
        u['ERROR', '0', '0'] = 'unitless'
        S.cover('errors')
    keep = [i for i in range(n) if not bad[i] and not err[i]]
    if len(keep) < 1:
        return
    S.cover('limit' if any(bad) else 'no limit')
    if event:
        S.cover('event id')
    if any((c[0], c[1], '2' if c[2] == '1' else '1') in cells for c in cols):
        S.cover('two directions')
    m = len(keep) if r.random() < 0.6 else int(r.integers(1, 2 * n))
    if m != len(keep):
        S.cover('resampled')
    S.drawn.update(limits=limits, columns=cols, units={str(k): v for k, v in u.items()}, infer=infer, length=length)
    a = dl(S)
    given = copy.deepcopy(limits)
    with tempdir() as d, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = written(S, d, {c: table[c] for c in [list(table)[int(i)] for i in r.permutation(len(table))]}, None if infer else u, event)
        res = S.call(a.calculate_demand, demand_path=f, collapse_limits=limits or None, length_unit=length if infer or r.random() < 0.3 else None, demand_calibration=None, sample_size=m, demand_cloning=None, residual_drift_inference=None, coupled_demands=True)
    S.no_raise('demands are calculated', res)
    S.ensure('limits kept', limits == given)
    s, un = a.demand.sample, {tuple(k): v for k, v in a.demand.user_units.items()}
    S.ensure('every demand and a constant', sorted(map(tuple, s.columns)) == sorted([*cols, ('ONE', '0', '1')]), f'{list(s.columns)}')
    S.ensure('size of the sample', len(s) == m)
    for c in cols:
        S.ensure('unit', un[c] == u[c], f'{c} {un[c]} {u[c]}')
        want = [cells[c][keep[i % len(keep)]] * FACT[u[c]] for i in range(m)]
        S.ensure('values of the retained realizations in their order', bool(np.allclose(s[c].to_numpy(dtype=float), want, rtol=1e-9, atol=0)), f'{c} {s[c].tolist()[:5]} {want[:5]}')
    S.ensure('a constant demand of one', bool(np.all(s['ONE', '0', '1'] == 1.0)) and un['ONE', '0', '1'] == 'unitless')


@contract('C33', 'inferred units', ['pelicun.assessment._add_units', DL], kind='runtime', runs=100, bound='up to 12 demands of all listed types, 4 length units', covers=['event id', 'acc', 'vel', 'disp', 'rot'])
def inferred(S):
    r = S.rng
    n = S.int('n', 1, 6)
    pool = [(t, k, str(l), d) for k, ts in KINDS.items() for t in ts for l in (0, 1, 11) for d in ('1', '2')]
    pick = [pool[int(i)] for i in r.permutation(len(pool))[:S.int('demands', 1, 12)]]
    length = S.case('length', ['in', 'inch', 'ft', 'm'])
    event = bool(r.random() < 0.3)
    if event:
        S.cover('event id')
    cells = {(t, l, d): [float(x) for x in r.lognormal(size=n)] for t, k, l, d in pick}
    a = dl(S)
    with tempdir() as d, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = written(S, d, cells, None, event)
        t = pd.read_csv(f, index_col=0)
        res = S.call(a.calculate_demand, demand_path=f, collapse_limits=None, length_unit=length, demand_calibration=None, sample_size=n, demand_cloning=None, residual_drift_inference=None, coupled_demands=True)
    S.no_raise('demands are calculated', res)
    for t, k, l, dr in pick:
        S.cover(k)
        L = FACT[length] if k != 'rot' else 1.0
        S.ensure('values in the unit of the type of demand', bool(np.allclose(a.demand.sample[t, l, dr].to_numpy(dtype=float), np.array(cells[t, l, dr]) * L, rtol=1e-9, atol=0)), f'{t} {length}')


LISTED = [(t, k) for k, ts in KINDS.items() for t in ts] + [('SD', 'disp'), ('SV', 'vel'), ('SA', 'acc'), ('PGV_x', 'vel'), ('PID_a', 'rot')]


@contract('C33', 'every type of demand', ['pelicun.assessment._add_units'], kind='bounded', modules=[assessment, base], runs=80, max_paths=20000, bound='symbolic: every listed type (with and without a suffix) beside one other demand of any kind, 4 length units, with and without an event id, two realizations with arbitrary values',
          covers=['event id', 'acc', 'vel', 'disp', 'rot', 'unknown type'])
def every(S):
    types = [*LISTED, ('XYZ', None)]
    t1, k1 = S.case('type', types)
    t2, k2 = S.case('other type', [('PFA', 'acc'), ('PGV', 'vel'), ('PIH', 'disp'), ('PRD', 'rot')])
    length, event = S.case('length', ['in', 'inch', 'ft', 'm']), S.case('event', [False, True])
    S.cover(k1 or 'unknown type')
    if event:
        S.cover('event id')
    cols = {(t1, '1', '2'): k1, (t2, '10', '1'): k2}
    if event:
        cols = dict(reversed(list(cols.items())))
    arr = np.empty((2, 2), dtype=object if S.symbolic else float)
    for i in range(2):
        for j in range(2):
            arr[i, j] = S.real(f'x{i}{j}')
    names = ['-'.join((['1'] if event else []) + list(c)) for c in cols]
    t = pd.DataFrame(arr, columns=names)
    keep = t.copy(deep=True)
    res = S.call(assessment._add_units, t, length)
    S.no_raise('units added', res)
    S.ensure('demands kept', list(t.columns) == names and all(t.iat[i, j] is keep.iat[i, j] or t.iat[i, j] == keep.iat[i, j] for i in range(2) for j in range(2)))
    S.ensure('every demand once', sorted(res.columns) == sorted(names), f'{list(res.columns)}')
    l = 'inch' if length == 'in' else length
    for j, (c, k) in enumerate(zip(names, cols.values())):
        u = res[c].loc['Units']
        if k is None:
            S.ensure('no unit for other types', isinstance(u, float) and np.isnan(u), f'{c} {u}')
        else:
            S.ensure('the unit of the type of demand', u == {'acc': l + 'ps2', 'vel': l + 'ps', 'disp': l, 'rot': 'unitless'}[k], f'{c} {u}')
        rows = res[c].drop('Units')
        S.ensure('all realizations in their order', len(rows) == 2, f'{rows}')
        for i in range(2):
            S.ensure('values kept', S.near(rows.iloc[i], arr[i, j]))


@contract('C33', 'demands without units', [DL], kind='runtime', runs=5, bound='one file')
def unknown(S):
    a = dl(S)
    with tempdir() as d, quiet():
        f = written(S, d, {('PFA', '1', '1'): [1.0, 2.0]}, None, False)
        S.refused('units are needed', S.call(a.calculate_demand, demand_path=f, collapse_limits=None, length_unit=None, demand_calibration=None, sample_size=2, demand_cloning=None, residual_drift_inference=None, coupled_demands=True), 'ValueError')


@contract('C33', 'raw order', [DL, DM + 'generate_sample', DM + '_create_RVs', DM + 'calibrate_model'], kind='runtime', runs=100, bound='up to 8 demands, fitted and empirical, 8 to 25 raw and up to 60 generated realizations', covers=['all empirical', 'some fitted', 'independent', 'longer', 'shorter', 'order not preserved'])
def raw_order(S):
    r = S.rng
    n = S.int('n', 8, 25)
    m = S.int('size', 1, 60)
    cols = demands(S, S.int('demands', 2, 8))
    u = {c: str(r.choice(UNITS[c[0]])) for c in cols}
    cells = {c: [float(x) for x in r.lognormal(size=n)] for c in cols}
    types = sorted({c[0] for c in cols})
    fitted = [t for t in types if r.random() < 0.5]
    conf = {'ALL': {'DistributionFamily': 'empirical'}, **{t: {'DistributionFamily': str(r.choice(['lognormal', 'normal']))} for t in fitted}}
    keep = bool(r.random() < 0.7)
    S.cover('some fitted' if fitted else 'all empirical')
    S.cover('longer' if m > n else 'shorter')
    if not keep:
        S.cover('order not preserved')
    t = pd.DataFrame(cells).astype(object)
    t.columns = pd.MultiIndex.from_tuples(cols)
    t.loc['Units'] = [u[c] for c in cols]
    S.drawn.update(columns=cols, configuration=conf)
    a = full_assessment(Seed=S.int('rng', 1, 10 ** 6))
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a.demand.load_sample(t)
        S.no_raise('calibrated', S.call(a.demand.calibrate_model, conf))
        if len([c for c in cols if c[0] in fitted]) > 1 and r.random() < 0.3:
            a.demand.correlation = None
            S.cover('independent')
        S.no_raise('generated', S.call(a.demand.generate_sample, {'SampleSize': m, 'PreserveRawOrder': keep}))
    s = a.demand.sample
    S.ensure('every demand', sorted(map(tuple, s.columns)) == sorted(cols) and len(s) == m)
    for c in cols:
        if c[0] in fitted:
            continue
        data = np.array(cells[c]) * FACT[u[c]]
        v = s[c].to_numpy(dtype=float)
        if keep:
            S.ensure('the data in the original order', bool(np.allclose(v, [data[i % n] for i in range(m)], rtol=1e-9, atol=0)), f'{c} {v[:5]} {data[:5]}')
        else:
            S.ensure('only values of the data', bool(np.all(np.isclose(v[:, None], data[None, :], rtol=1e-9, atol=0).any(axis=1))), f'{c}')
            if m % n == 0:
                S.ensure('every value equally often', bool(np.all(np.isclose(v[:, None], data[None, :], rtol=1e-9, atol=0).sum(axis=0) == m // n)), f'{c}')
