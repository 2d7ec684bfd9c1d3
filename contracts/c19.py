"""C19 residual drifts stay between zero and the peak drift"""
import numpy as np
import pandas as pd
from pelicun.model import demand_model
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite
from contracts.util import *

DM = 'pelicun.model.demand_model.DemandModel.'


class Noise:
    """a generator whose normal deviates can be any numbers"""

    def __init__(self, S):
        self.S, self.k = S, 0

    def normal(self, loc=0.0, scale=1.0, size=None):
        out = np.empty(size, dtype=object)
        for i in np.ndindex(*out.shape):
            self.k += 1
            out[i] = self.S.real(f'noise{self.k}')
        return out


def check(S, pid, rid, dy, rows, cols):
    for i in range(rows):
        for j in range(cols):
            p, r, y = pid[i][j], rid[i][j], dy[j]
            S.ensure('between zero and the peak drift', And(S.ge(r, 0.0), S.le(r, p)), f'realization {i} column {j}: peak {p}, residual {r}, yield {y}')
            S.ensure('zero below the yield drift', Implies(p < y, S.exact(r, 0.0)), f'peak {p}, residual {r}, yield {y}')
            if not S.symbolic:
                S.cover('elastic' if p < y else 'medium' if p < 4 * y else 'large')


@contract('C19', 'estimate', [DM + 'estimate_RID'], kind='bounded', modules=[demand_model], runs=200, max_paths=20000,
          bound='symbolic: 1-2 realizations and 1-2 columns, any peak drifts, yield drift and random deviates; concrete: up to 8 columns x 20 realizations', covers=['done'])
def estimate(S):
    n, k = (S.case('shape', [(1, 1), (1, 2), (2, 1)])) if S.symbolic else (S.int('n', 1, 20), S.int('k', 1, 8))
    dy = S.real('yield', gt=0.0, scale=0.02) if S.symbolic else float(S.rng.choice([0.002, 0.01, 0.02]))
    pid = [[S.real(f'p{i}_{j}', lo=0.0) if S.symbolic else float(S.rng.choice([0.0, 1.0, 4.0, 0.5, S.rng.lognormal(0, 1), S.rng.lognormal(1, 1)])) * dy for j in range(k)] for i in range(n)]
    if not S.symbolic:
        S.drawn.update(pid=pid, dy=dy)
    cols = pd.MultiIndex.from_tuples([(str(j // 2 + 1), str(j % 2 + 1)) for j in range(k)], names=['loc', 'dir'])
    index = list(range(n)) if S.symbolic or S.rng.random() < 0.7 else [int(x) for x in S.rng.permutation(50)[:n]]
    d = pd.DataFrame(np.array(pid, dtype=object if S.symbolic else float).reshape(n, k), columns=cols, index=index)
    snap = d.copy(deep=True)
    a = full_assessment(Seed=None if S.symbolic else S.int('rng', 1, 10 ** 6))
    if S.symbolic:
        a.options._rng = Noise(S)
    params = {'yield_drift': dy}
    with np.errstate(all='ignore'):
        r = S.call(a.demand.estimate_RID, d, params)
    S.no_raise('residual drifts are estimated', r)
    S.ensure('one column per peak drift', [tuple(c) for c in r.columns] == [('RID', *c) for c in cols], f'{list(r.columns)}')
    S.ensure('same realizations', list(r.index) == index)
    S.ensure('peak drifts kept', list(params) == ['yield_drift'] and (S.symbolic or d.equals(snap)))
    check(S, pid, r.to_numpy(), [dy] * k, n, k)
    S.cover('done')


@contract('C19', 'unknown methods', [DM + 'estimate_RID', DM + 'estimate_RID_and_adjust_sample'], kind='runtime', runs=10, bound='names listed in the harness')
def unknown(S):
    a = full_assessment(Seed=1)
    d = pd.DataFrame({('1', '1'): [0.01]})
    S.refused('unknown methods are refused', S.call(a.demand.estimate_RID, d, {'yield_drift': 0.01}, S.case('method', ['FEMA', 'fema p-58', '', 'Constant'])), 'ValueError')
    S.refused('a sample is needed', S.call(a.demand.estimate_RID_and_adjust_sample, {'yield_drift': 0.01}), 'ValueError', 'TypeError')


def raw(S, n, dirs, own=()):
    cols = []
    for l in range(S.int('stories', 1, 12)):
        for d in dirs:
            cols += [('PID', str(l + 1), d), ('PFA', str(l + 1), d)]
    cols.append(('PGV', '0', '1'))
    cols = [cols[int(i)] for i in S.rng.permutation(len(cols))]
    u = {'PID': str(S.rng.choice(['rad', 'unitless', *own])), 'PFA': str(S.rng.choice(['g', 'mps2'])), 'PGV': str(S.rng.choice(['inps', 'mps']))}
    t = pd.DataFrame({c: S.rng.lognormal(np.log(0.01), 1.0, n) / (0.01 if u[c[0]] in own else 1.0) for c in cols}).astype(object)
    t.columns = pd.MultiIndex.from_tuples(cols)
    t.loc['Units'] = [u[c[0]] for c in cols]
    return t


@contract('C19', 'adjusted sample', [DM + 'estimate_RID_and_adjust_sample', DM + 'estimate_RID'], kind='runtime', runs=100, bound='up to 12 stories, 2 directions, 20 realizations', covers=['elastic', 'medium', 'large', 'own unit'])
def adjusted(S):
    n = S.int('n', 1, 20)
    t = raw(S, n, ['1', '2'], ['percent_drift'])
    a = full_assessment(Seed=S.int('rng', 1, 10 ** 6))
    a.unit_conversion_factors['percent_drift'] = 0.01
    if 'percent_drift' in set(t.loc['Units']):
        S.cover('own unit')
    with quiet():
        a.demand.load_sample(t)
        before, units = a.demand.sample.copy(deep=True), a.demand.user_units.copy()
        dy = float(S.rng.choice([0.001, 0.005, 0.02]))
        r = S.call(a.demand.estimate_RID_and_adjust_sample, {'yield_drift': dy})
    S.no_raise('residual drifts are added', r)
    after = a.demand.sample
    pids = [tuple(c) for c in before.columns if c[0] == 'PID']
    S.ensure('one residual drift for each peak drift', sorted(map(tuple, after.columns)) == sorted([*map(tuple, before.columns), *[('RID', *c[1:]) for c in pids]]))
    for c in before.columns:
        S.ensure('other demands pass through', bool(np.allclose(after[c], before[c], rtol=1e-12, atol=0)) and a.demand.user_units[c] == units[c])
    for c in pids:
        u = a.demand.user_units.get(('RID', *c[1:]))
        S.ensure('residual drifts have a unit of their own', isinstance(u, str) and a.unit_conversion_factors.get(u) == 1.0, f'{c} {u}')
    check(S, before[pids].to_numpy(), after[[('RID', *c[1:]) for c in pids]].to_numpy(), [dy * (1 - 1e-12)] * len(pids), n, len(pids))


@contract('C19', 'directions', ['pelicun.assessment.DLCalculationAssessment.calculate_demand', DM + 'estimate_RID'], kind='runtime', runs=80, bound='up to 12 stories, 2 directions with their own yield drifts, 20 realizations', covers=['elastic', 'medium', 'large', 'one direction', 'own residual drift', 'own unit'])
def directions(S):
    import os
    from pelicun import assessment
    n = S.int('n', 3, 20)
    t = raw(S, n, ['1', '2'], ['percent_drift'])
    if 'percent_drift' in set(t.loc['Units']):
        S.cover('own unit')
    own = S.case('own residual drift', [False, True])
    use = S.case('directions', [['1', '2'], ['2', '1'], ['2'], ['1']])
    if own:
        t['RID', '1', '9'] = [*S.rng.uniform(0, 0.1, n), 'rad']
    dy = {d: float(y) for d, y in zip(use, S.rng.choice([0.001, 0.004, 0.015], len(use), replace=False))}
    S.drawn['yield'] = dy
    conf = {'method': 'FEMA P-58', **{d: (str(y) if S.rng.random() < 0.3 else y) for d, y in dy.items()}}
    asked = dict(conf)
    a = assessment.DLCalculationAssessment({'Verbose': False, 'PrintLog': False, 'LogFile': None, 'Seed': S.int('rng', 1, 10 ** 6)})
    a.unit_conversion_factors['percent_drift'] = 0.01
    with tempdir() as d, quiet():
        f = os.path.join(d, 'r.csv')
        x = t.copy()
        x.columns = ['-'.join(c) for c in x.columns]
        x.to_csv(f)
        r = S.call(a.calculate_demand, demand_path=f, collapse_limits=None, length_unit=None, demand_calibration=None, sample_size=n, demand_cloning=None, residual_drift_inference=conf, coupled_demands=True)
    S.no_raise('demands are calculated', r)
    S.ensure('configuration kept', conf == asked, f'{conf}')
    D = a.demand.sample
    U = {'percent_drift': 0.01, 'g': 9.80665, 'inps': 0.0254, 'rad': 1.0, 'unitless': 1.0, 'mps2': 1.0, 'mps': 1.0}
    data = t.drop('Units').astype(float)
    for c in t.columns:
        S.ensure('other demands pass through', tuple(c) in set(map(tuple, D.columns)) and bool(np.allclose(D[c], data[c] * U[t.loc['Units', c]], rtol=1e-9)), f'{c}')
    pids = [tuple(c) for c in t.columns if c[0] == 'PID' and c[2] in use]
    rids = [tuple(c) for c in D.columns if c[0] == 'RID' and c[2] != '9']
    S.ensure('one residual drift for each peak drift of the listed directions', sorted(rids) == sorted(('RID', *c[1:]) for c in pids), f'{rids}')
    check(S, D[pids].to_numpy(), D[[('RID', *c[1:]) for c in pids]].to_numpy(), [dy[c[2]] * (1 - 1e-9) for c in pids], n, len(pids))
    for c in pids:
        p, q = D[c].to_numpy(), D[('RID', *c[1:])].to_numpy()
        S.ensure('nonzero above the yield drift of its own direction', bool(np.all(q[p > dy[c[2]] * (1 + 1e-6)] > 0)), f'{c}')
    if len(use) == 1:
        S.cover('one direction')
    if own:
        S.cover('own residual drift')
