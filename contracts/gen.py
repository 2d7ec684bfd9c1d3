"""random assessments for contracts over whole models, and an independent reading of their inputs"""
import numpy as np
import pandas as pd
from pelicun import base
from contracts.util import *

REAL = {u: f for c in base.parse_units(preserve_categories=True).values() for u, f in c.items()}
DEM = {'Peak Interstory Drift Ratio': ('PID', 'rad', 0.02), 'Peak Floor Acceleration': ('PFA', 'g', 0.5), 'Peak Floor Velocity': ('PFV', 'inps', 20.0),
       'Peak Ground Acceleration': ('PGA', 'g', 0.5)}
IDS = ['B.10.31.001', 'B.20.22.031', 'C.30.11.001', 'D.10.14.011', 'D.30.31']


DEFAULT_OFFSETS = {'PFA': -1, 'PFV': -1}      # documented defaults


def demand(S, a, stories, n, dirs=('1', '2')):
    cols, vals = [], []
    for t, u, s in DEM.values():
        locs = [0] if t == 'PGA' else range(0, stories + 2)
        for l in locs:
            for d in dirs:
                cols.append((t, str(l), d))
                vals.append(S.rng.lognormal(np.log(s * REAL[u]), 0.6, n))
    order = S.rng.permutation(len(cols)) if S.rng.random() < 0.3 else range(len(cols))
    a.demand.sample = pd.DataFrame({cols[i]: vals[i] for i in order})
    a.demand.sample.columns = pd.MultiIndex.from_tuples([cols[i] for i in order], names=['type', 'loc', 'dir'])
    a.demand.user_units = pd.Series('rad', index=a.demand.sample.columns)
    return a.demand.sample


def components(S, stories, k, blocks=True, max_ls=4, gaps=True, weights=True, families=('lognormal', 'normal', None, 'normal_std'), directional=True):
    """parameters of k component types, as plain data"""
    out = {}
    for c in S.rng.permutation(IDS)[:k]:
        d = list(DEM)[int(S.rng.integers(len(DEM)))]
        t, u, s = DEM[d]
        if t == 'PGA':
            loc = '0'
            off = 0
        else:
            off = int(S.rng.choice([0, 0, 1])) if stories else 0
            loc = str(S.rng.choice(['1', 'all', 'top', '0', '1,2' if stories > 1 else '1']))
            if loc == '0' and t in ('PFA', 'PFV'):
                off = 1
        drc = int(S.rng.random() < 0.6) if directional else 0
        ls = {}
        m = int(S.rng.integers(1, max_ls + 1))
        th = s * np.cumsum(S.rng.uniform(0.2, 0.8, m))
        nds = 0
        for i in range(m):
            if gaps and S.rng.random() < 0.15 and i < m - 1:
                continue
            f = families[int(S.rng.integers(len(families)))]
            w = None
            if weights and S.rng.random() < 0.35:
                w = S.rng.dirichlet([1] * int(S.rng.integers(2, 4))).round(3)
                w[-1] = 1 - w[:-1].sum()
            ls[i + 1] = {'Family': f, 'Theta_0': float(th[i]), 'Theta_1': None if f is None else float(s * 0.2 if f == 'normal_std' else S.rng.uniform(0.1, 0.6)), 'w': None if w is None else [float(x) for x in w]}
            if f == 'multilinear_CDF':
                x = th[i] * np.cumsum([0.5, *S.rng.uniform(0.1, 0.5, 2)])
                q = float(S.rng.uniform(0.1, 0.9))
                ls[i + 1].update(Theta_0=','.join(repr(float(v)) for v in x) + f'|0,{q!r},1', Theta_1=None)
            nds += 1 if w is None else len(w)
        out[str(c)] = {'demand': d, 'type': t, 'unit': u, 'offset': off, 'directional': drc, 'ls': ls, 'loc': loc, 'dir': str(S.rng.choice(['1', '2', '1,2'])) if drc else str(S.rng.choice(['0', '1', '1,2'])),
                       'Blocks': int(S.rng.integers(1, 5)) if blocks else 1, 'qty': float(S.rng.uniform(1, 20)), 'cov': None if S.rng.random() < 0.5 else 0.2, 'qunit': str(S.rng.choice(['ea', 'ft2', 'm', 'ft'])), 'nds': nds}
    return out


def damage_table(C, lsmax=None, weights_column=True):
    n = lsmax or max(max(c['ls']) for c in C.values())
    rows = {}
    for cid, c in C.items():
        r = {('Incomplete', ''): 0, ('Demand', 'Type'): c['demand'], ('Demand', 'Unit'): c['unit'], ('Demand', 'Offset'): c['offset'], ('Demand', 'Directional'): c['directional']}
        for i in range(1, n + 1):
            p = c['ls'].get(i)
            r[f'LS{i}', 'Family'] = p['Family'] if p else None
            r[f'LS{i}', 'Theta_0'] = p['Theta_0'] if p else None
            r[f'LS{i}', 'Theta_1'] = p['Theta_1'] if p else None
            if weights_column:
                r[f'LS{i}', 'DamageStateWeights'] = ' | '.join(map(str, p['w'])) if p and p['w'] else None
        rows[cid] = r
    t = pd.DataFrame.from_dict(rows, orient='index')
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    return t.astype(object).where(t.notna(), np.nan)


def asset(S, a, stories, n, C, blocks=True):
    a.stories = stories
    t = pd.DataFrame({'Units': [c['qunit'] for c in C.values()], 'Location': [c['loc'] for c in C.values()], 'Direction': [c['dir'] for c in C.values()],
                      'Theta_0': [c['qty'] for c in C.values()], 'Theta_1': [c['cov'] if c['cov'] else np.nan for c in C.values()], 'Family': ['lognormal' if c['cov'] else None for c in C.values()],
                      **({'Blocks': [c['Blocks'] for c in C.values()]} if blocks else {})}, index=list(C))
    a.asset.load_cmp_model({'marginals': t})
    a.asset.generate_cmp_sample(n)
    return a.asset.cmp_sample


def expected_demand(a, c, loc, direction, offsets=None, multipliers=None):
    """the demand a performance group has to be checked against, from the documentation"""
    D = a.demand.sample
    off = c['offset'] + (DEFAULT_OFFSETS if offsets is None else offsets).get(c['type'], 0)
    l = str(int(loc) + off)
    if c['directional'] and direction != '0':
        return D[(c['type'], l, direction)].to_numpy()
    cols = [x for x in D.columns if x[0] == c['type'] and x[1] == l]
    m = (multipliers or {}).get(c['type'], (multipliers or {}).get('ALL', 1.2))
    return np.max([D[x].to_numpy() for x in cols], axis=0) * m


def first_ds(c):
    """limit state -> first damage state id"""
    out, k = {}, 1
    for i in sorted(c['ls']):
        out[i] = k
        k += len(c['ls'][i]['w'] or [1])
    return out


class record:
    """collects the capacities and damage state choices that the model samples"""

    def __init__(self):
        self.cap, self.lsds = {}, {}

    def __enter__(self):
        from pelicun.model import damage_model as dm
        real = dm.DamageModel_DS._generate_dmg_sample
        rec = self

        def wrapped(self_, *p, **k):
            c, l = real(self_, *p, **k)
            for col in c.columns:
                assert tuple(col) not in rec.cap
                rec.cap[tuple(map(str, col))] = c[col].to_numpy(dtype=float).copy()
            for col in l.columns:
                rec.lsds[tuple(map(str, col))] = l[col].to_numpy().copy()
            return c, l
        self.s = swap(dm.DamageModel_DS, '_generate_dmg_sample', wrapped)
        self.s.__enter__()
        return self

    def __exit__(self, *a):
        self.s.__exit__(*a)
