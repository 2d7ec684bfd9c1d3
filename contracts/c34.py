"""C34 collapse, irreparable damage and replacement in complete calculations"""
import json
import os
import warnings
import numpy as np
import pandas as pd
from pelicun import assessment
from pyvc.contract import contract, Raised
from contracts.util import *
from contracts import gen
from contracts.c32 import follows

DL = 'pelicun.assessment.DLCalculationAssessment.'
HEADER = pd.DataFrame(columns=pd.MultiIndex.from_tuples([('Incomplete', ''), *[('Demand', x) for x in ('Type', 'Unit', 'Offset', 'Directional')], *[(f'LS{i}', x) for i in range(1, 5) for x in ('Family', 'Theta_0', 'Theta_1', 'DamageStateWeights')]]))
FACT = {'in': 0.0254, 'ft': 0.3048, 'm': 1.0}
DVS = {'Cost': ('USD_2011', 'repair_cost'), 'Time': ('worker_day', 'repair_time'), 'Carbon': ('kg', 'repair_carbon'), 'Energy': ('MJ', 'repair_energy')}


class Building:
    """a random building and its calculation, in steps"""

    def __init__(self, S, hazus=False):
        r = self.r = S.rng
        self.S = S
        self.n, self.k = S.int('n', 2, 14), S.int('stories', 1, 3)
        self.length = S.case('length', list(FACT))
        self.dirs = ['1', '2'] if r.random() < 0.7 else ['1']
        self.hazus = hazus
        C = self.C = {}
        if hazus:
            self.names = {'STR': 'STR.W1.LC', 'NSA': 'NSA.COM4', 'NSD': 'NSD'}
            for c in self.names.values():
                C[c] = {'demand': 'Peak Interstory Drift Ratio', 'unit': 'unitless', 'ls': {i: 0.01 * i for i in (1, 2, 3, 4, 5)}, 'loc': '1', 'dir': '1', 'offset': 0, 'type': 'PID', 'directional': 1}
        else:
            for c in r.permutation(['B.10.31.001', 'C.30.11.001', 'D_20', 'NSA.1'])[:S.int('types', 1, 3)]:
                t = 'PID' if r.random() < 0.6 else 'PFA'
                C[str(c)] = {'demand': {'PID': 'Peak Interstory Drift Ratio', 'PFA': 'Peak Floor Acceleration'}[t], 'unit': {'PID': 'rad', 'PFA': 'g'}[t], 'type': t, 'ls': {i: (0.01 if t == 'PID' else 0.4) * i for i in range(1, int(r.integers(2, 4)))},
                             'loc': str(r.choice(['1', 'all', 'top'])), 'dir': str(r.choice([d for d in ('1', ','.join(self.dirs))])), 'offset': 0, 'directional': 1}
        self.demolition = None
        self.rid = bool(r.random() < 0.7)
        demand = {}
        for l in range(1, self.k + 1):
            for d in self.dirs:
                demand['PID', str(l), d] = ('rad', r.lognormal(np.log(0.02), 0.8, self.n))
                if self.rid:
                    demand['RID', str(l), d] = ('rad', r.lognormal(np.log(0.005), 0.8, self.n))
        for l in range(0, self.k + 1):
            for d in self.dirs:
                demand['PFA', str(l), d] = ('g', r.lognormal(np.log(0.5), 0.6, self.n))
        demand['SA_1.13', '0', '1'] = ('g', r.lognormal(np.log(0.5), 0.6, self.n))
        if r.random() < 0.5:
            demand['SA_0.3', '0', '1'] = ('g', r.lognormal(np.log(0.5), 0.6, self.n))
        self.demand = demand
        self.collapse = None
        kind = S.case('collapse', ['none', 'global', 'story'])
        self.kind = kind
        if kind != 'none':
            fam = str(r.choice(['lognormal', 'normal', 'deterministic']))
            x = 0.6 * 9.80665 / FACT[self.length] if kind == 'global' else 0.05
            self.collapse = {'DemandType': 'SA_1.13' if kind == 'global' else 'PID', 'CapacityDistribution': fam, 'CapacityMedian': float(x), 'Theta_1': 0.4 if fam != 'deterministic' else np.nan}
        self.irreparable = {'DriftCapacityMedian': 0.01, 'DriftCapacityLogStd': 0.3} if r.random() < 0.6 else None
        self.options = {'Verbose': False, 'PrintLog': False, 'LogFile': None, 'Seed': S.int('rng', 1, 10 ** 6), 'Sampling': {'SamplingMethod': 'LHS_midpoint'}}
        if r.random() < 0.4:
            self.options['RepairCostAndTimeCorrelation'] = [0.5, '0.5', '0', 0, 1][int(r.integers(5))]
        self.dvs = [list(DVS)[i] for i in r.permutation(4)[:int(r.integers(1, 5))]]
        alt = {'Cost': ['USD'], 'Time': ['hour', 'day'], 'Carbon': ['ton', 'lb'], 'Energy': ['J']}
        has = [v for v in self.dvs if r.random() < 0.8]
        self.unit = {v: str(r.choice(alt[v])) if v in has and not hazus and r.random() < 0.4 else DVS[v][0] for v in DVS}
        self.replacement = {v: {'Unit': self.unit[v], 'Median': float(r.uniform(1e3, 1e5)), **({'Distribution': 'lognormal', 'Theta_1': 0.2} if r.random() < 0.3 else {})} for v in has}
        if r.random() < 0.3:    # numbers as text are valid in the configuration
            S.cover('numbers as text')
            for x in [self.collapse, self.irreparable, *self.replacement.values()]:
                if x:
                    x.update({k: str(v) for k, v in x.items() if not isinstance(v, str) and v == v})
        S.drawn.update(components=C, collapse=self.collapse, irreparable=self.irreparable, residual=self.rid, dvs=self.dvs, replacement=self.replacement)

    def run(self, d, process, process_file=None, loss=True):
        S, r = self.S, self.r
        a = self.a = assessment.DLCalculationAssessment(self.options)
        f = os.path.join(d, 'response.csv')
        x = pd.DataFrame({'-'.join(k): v for k, (u, v) in self.demand.items()}).astype(object)
        x.loc['Units'] = [u for u, v in self.demand.values()]
        x.to_csv(f)
        S.no_raise('demands', S.call(a.calculate_demand, demand_path=f, collapse_limits=None, length_unit=self.length, demand_calibration=None, sample_size=self.n, demand_cloning=None, residual_drift_inference=None, coupled_demands=True))
        f = os.path.join(d, 'cmp.csv')
        pd.DataFrame({'Units': 'ea', 'Location': [c['loc'] for c in self.C.values()], 'Direction': [c['dir'] for c in self.C.values()], 'Theta_0': [float(x) for x in r.uniform(1, 5, len(self.C))], 'Family': [None for _ in self.C]}, index=list(self.C)).to_csv(f)
        S.no_raise('assets', S.call(a.calculate_asset, self.k, f, self.collapse['DemandType'] if self.collapse else None, None, add_irreparable_damage_columns=bool(self.irreparable)))
        if r.random() < 0.25:    # the same components from a sample
            S.cover('component sample')
            f, whole = os.path.join(d, 'cmp_sample.csv'), a.asset.cmp_sample
            S.no_raise('sample saved', S.call(a.asset.save_cmp_sample, f))
            a.asset = type(a.asset)(a)
            S.no_raise('sample of components', S.call(a.calculate_asset, self.k, None, self.collapse['DemandType'] if self.collapse else None, f, add_irreparable_damage_columns=bool(self.irreparable)))
            new = a.asset.cmp_sample
            S.ensure('components of the sample', sorted(map(str, new.columns)) == sorted(map(str, whole.columns)) and np.allclose(new[whole.columns].to_numpy(dtype=float), whole.to_numpy(dtype=float), rtol=1e-12), f'{new} {whole}')
        f = os.path.join(d, 'fragility.csv')
        rows = {}
        for cid, c in self.C.items():
            rows[cid] = {('Incomplete', ''): 0, ('Demand', 'Type'): c['demand'], ('Demand', 'Unit'): c['unit'], ('Demand', 'Offset'): 0, ('Demand', 'Directional'): 1}
            for i, t in c['ls'].items():
                rows[cid].update({(f'LS{i}', 'Family'): 'lognormal', (f'LS{i}', 'Theta_0'): t, (f'LS{i}', 'Theta_1'): 0.4})
        t = pd.DataFrame.from_dict(rows, orient='index')
        t.columns = [f'{x}-{y}' if y else x for x, y in t.columns]
        t.to_csv(f, index_label='ID')
        self.keep = copy.deepcopy(assessment.default_damage_processes), copy.deepcopy(self.collapse), copy.deepcopy(self.irreparable)
        with gen.record() as rec, swap(type(a), 'get_default_data', lambda *p, **k: HEADER.copy()):
            S.no_raise('damage', S.call(a.calculate_damage, self.length, None, f, self.collapse, self.irreparable, process, process_file))
        self.rec = rec
        if not loss:
            return a
        f = os.path.join(d, 'consequence.csv')
        rows = {}
        for cid, c in self.C.items():
            for v in self.dvs:
                rows[f'{cid}-{v}'] = {'Incomplete': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': self.unit[v], **{f'DS{i}-Theta_0': float(r.uniform(1, 100)) for i in c['ls']}}
        how, folder = 'Automatic', None
        self.map = {c: c for c in self.C}
        if r.random() < 0.4:
            how, folder = 'User Defined', d
            S.cover('user defined map')
            same = {len(c['ls']) for c in self.C.values()}
            if len(same) == 1:
                self.map = dict(zip(self.C, [str(x) for x in r.permutation(list(self.C))]))
            own = dict(self.map)
            for c in ('collapse', 'irreparable'):
                if r.random() < 0.4:
                    own[c] = 'demolition' if c == 'collapse' else 'replacement'
            if own.get('collapse') == 'demolition':
                S.cover('own consequence')
                self.demolition = {v: float(r.uniform(10, 1000)) for v in self.dvs}
                for v in self.dvs:
                    rows[f'demolition-{v}'] = {'Incomplete': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': self.unit[v], 'DS1-Theta_0': self.demolition[v]}
            own = {k: own[k] for k in r.permutation(list(own))}
            pd.DataFrame({'Repair': list(own.values())}, index=[str(k) for k in own]).to_csv(os.path.join(d, 'map.csv'))
        self.theta = {k: v for k, v in rows.items()}
        pd.DataFrame.from_dict(rows, orient='index').to_csv(f, index_label='ID')
        res = S.call(a.calculate_loss, how, None, None, 'CustomDLDataFolder/consequence.csv' if folder else f, folder, process, *[self.replacement.get(v) for v in ('Cost', 'Time', 'Carbon', 'Energy')], 'CustomDLDataFolder/map.csv' if folder else None, tuple(self.dvs))
        S.no_raise('losses', res)
        self.agg = res[0]
        return a

    def over(self, name, demand):
        """realizations where the demand exceeds the capacity at any place"""
        D = self.a.demand.sample
        out = np.zeros(self.n, dtype=bool)
        for key, cap in self.rec.cap.items():
            if key[0] == name:
                out |= D[demand(key)].to_numpy(dtype=float) > cap
        return out


def sampled(S, B):
    """capacities of the configured collapse and irreparable damage"""
    n = 0
    for key, cap in B.rec.cap.items():
        if key[0] == 'excessive.coll.DEM' or (key[0] == 'collapse' and B.kind == 'global'):
            c = B.collapse
            fam = c['CapacityDistribution']
            follows(S, 'collapse capacities as configured', cap, {'Family': fam, 'Theta_0': float(c['CapacityMedian']), 'Theta_1': float(c['Theta_1'])}, FACT[B.length] if B.kind == 'global' else 1.0)
            n += 1
        if key[0] == 'excessiveRID':
            follows(S, 'drift capacities as configured', cap, {'Family': 'lognormal', 'Theta_0': 0.01, 'Theta_1': 0.3})
    S.ensure('a capacity for every place of a collapse check', n == {'none': 0, 'global': 1, 'story': B.k * len(B.dirs)}[B.kind], f'{n} {B.kind}')


def damage(B, c):
    """{damage state: total quantity in each realization} and where the component has no damage"""
    s = B.a.damage.ds_model.sample
    cols = [x for x in s.columns if x[0] == c]
    out = {}
    for x in cols:
        out.setdefault(x[-1], []).append(s[x].to_numpy(dtype=float))
    return {k: np.array(v) for k, v in out.items()}


@contract('C34', 'FEMA P-58', [DL + 'calculate_asset', DL + 'calculate_damage', DL + 'calculate_loss', 'pelicun.model.loss_model.LossModel.aggregate_losses'], kind='runtime', runs=100,
          bound='up to 3 component types, 3 stories, 14 realizations; the header of the default library by contract', covers=['collapse', 'irreparable', 'damage only', 'global', 'story', 'none', 'no residual drifts', 'user defined map', 'own consequence', 'uncertain replacement', 'default replacement', 'constant', 'untruncated', 'numbers as text', 'component sample'])
def fema(S):
    B = Building(S)
    S.cover(B.kind)
    with tempdir() as d, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = B.run(d, 'FEMA P-58')
    S.ensure('configuration and templates are kept', repr((assessment.default_damage_processes, B.collapse, B.irreparable)) == repr(B.keep))
    sampled(S, B)
    n = B.n
    col = {'none': lambda: np.zeros(n, dtype=bool), 'global': lambda: B.over('collapse', lambda k: ('SA_1.13', '0', '1')), 'story': lambda: B.over('excessive.coll.DEM', lambda k: ('PID', k[1], k[2]))}[B.kind]()
    irr = np.zeros(n, dtype=bool)
    if B.irreparable and B.rid:
        irr = B.over('excessiveRID', lambda k: ('RID', k[1], k[2])) & ~col
    elif B.irreparable:
        S.cover('no residual drifts')
    for c, mask in (('collapse', col), ('irreparable', irr)):
        ds = damage(B, c)
        got = ds['1'].sum(axis=0) if '1' in ds else np.zeros(n)
        S.ensure(f'{c} exactly where a capacity is exceeded', bool(np.array_equal(np.nan_to_num(got) == 1.0, mask)), f'{got} {mask}')
        if mask.any():
            S.cover(c)
    gone = col | irr
    if not gone.all():
        S.cover('damage only')
    for c in B.C:
        for x in damage(B, c).values():
            S.ensure('no component damage after collapse or irreparable damage', bool(np.all(np.isnan(x[:, gone])) and not np.any(np.isnan(x[:, ~gone]))), f'{c}')
        for key, cap in B.rec.cap.items():
            if key[0] == c and key[5] == '1' and B.C[c]['type'] == 'PID':
                hit = a.demand.sample['PID', key[1], key[2]].to_numpy(dtype=float) > cap
                s = a.damage.ds_model.sample
                x = (*key[:4], '0')
                S.ensure('components are damaged as before otherwise', bool(np.array_equal(s[x].to_numpy()[~gone] == 0, hit[~gone]) if x in s.columns else hit[~gone].all()), f'{key}')
    for v in B.dvs:
        t = B.agg[[x for x in B.agg.columns if x[0] == DVS[v][1]] if B.agg.columns.nlevels > 1 else [x for x in B.agg.columns if str(x).startswith(DVS[v][1])]]
        if v == 'Time':
            t = t[[x for x in t.columns if 'sequential' in str(x)]]
        S.ensure('one result for each decision variable', t.shape[1] == 1, f'{list(B.agg.columns)}')
        got = t.iloc[:, 0].to_numpy(dtype=float) * gen.REAL[B.unit[v]]
        p = B.replacement.get(v)
        gone_ = gone
        if B.demolition:
            S.ensure('exactly the consequence assigned to collapse', bool(np.allclose(got[col], B.demolition[v] * gen.REAL[B.unit[v]], rtol=1e-9)), f'{v} {got} {B.demolition}')
            gone_ = irr
        k = gen.REAL[B.unit[v]]
        L = a.loss.ds_model.sample
        cols = [x for x in L.columns if x[0] == v and x[2] in B.C]
        for x in cols:
            q = a.damage.ds_model.sample[x[2], x[4], x[5], x[6], x[3]].to_numpy(dtype=float)
            y = B.theta[f'{B.map[x[2]]}-{v}'][f'DS{x[3]}-Theta_0']
            S.ensure('losses of components from the loss model in the map', x[1] == B.map[x[2]] and bool(np.allclose(np.nan_to_num(L[x].to_numpy(dtype=float)), np.nan_to_num(q) * y * k, rtol=1e-9)), f'{x} {y}')
        parts = L[cols].to_numpy(dtype=float)
        total = np.nansum(parts, axis=1) if cols else np.zeros(n)
        S.ensure('losses of components where nothing is replaced', bool(np.allclose(got[~gone], total[~gone], rtol=1e-9)), f'{v} {got} {total}')
        if p is None:
            S.cover('default replacement')
            S.ensure('no replacement consequence by default', bool(np.allclose(got[gone_], 0.0)), f'{v} {got}')
        elif 'Distribution' in p:
            S.cover('uncertain replacement')
            m = float(p['Median']) * k
            S.ensure('replacement in the range of its distribution', bool(np.all((got[gone_] > m * 0.4) & (got[gone_] < m * 2.5))), f'{v} {got} {p}')
        else:
            S.ensure('exactly the replacement consequence after collapse or irreparable damage', bool(np.allclose(got[gone_], float(p['Median']) * k, rtol=1e-9)), f'{v} {got} {p}')


@contract('C34', 'Hazus buildings', [DL + 'calculate_damage', DL + 'calculate_asset', DL + 'calculate_loss'], kind='runtime', runs=60, bound='three components, up to 3 stories, 14 realizations, two calculations in sequence', covers=['collapse', 'losses', 'irreparable', 'damage only', 'constant', 'untruncated', 'numbers as text', 'component sample'])
def hazus(S):
    for i in range(2):
        B = Building(S, hazus=True)
        if i:
            B.C[str(S.rng.choice(['STR.C3.HC', 'STR.W1_LC', 'STR.W1_LC_2']))] = B.C.pop('STR.W1.LC')
        with tempdir() as d, quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            a = B.run(d, 'Hazus Earthquake - Buildings', loss=False)
        S.ensure('configuration and templates are kept', repr((assessment.default_damage_processes, B.collapse, B.irreparable)) == repr(B.keep))
        sampled(S, B)
        n = B.n
        s = next(c for c in B.C if c.startswith('STR'))
        col = {'none': lambda: np.zeros(n, dtype=bool), 'global': lambda: B.over('collapse', lambda k: ('SA_1.13', '0', '1')), 'story': lambda: B.over('excessive.coll.DEM', lambda k: ('PID', k[1], k[2]))}[B.kind]()
        cap = np.array([B.rec.cap[k] for k in sorted(B.rec.cap, key=lambda k: int(k[5])) if k[0] == s])
        ds = np.zeros(n)
        for j in range(5):
            ds = np.where(a.demand.sample['PID', '1', '1'].to_numpy(dtype=float) > cap[j], j + 1, ds)
        col = col | (ds == 5)
        irr = B.over('excessiveRID', lambda k: ('RID', k[1], k[2])) & ~col if B.irreparable and B.rid else np.zeros(n, dtype=bool)
        for c, mask in (('collapse', col), ('irreparable', irr)):
            x = damage(B, c)
            got = x['1'].sum(axis=0) if '1' in x else np.zeros(n)
            S.ensure(f'{c} exactly where a capacity is exceeded or the structure is in its last damage state', bool(np.array_equal(np.nan_to_num(got) == 1.0, mask)), f'{got} {mask}')
            if mask.any():
                S.cover(c)
        gone = col | irr
        if not gone.all():
            S.cover('damage only')
        for c in B.C:
            for x in damage(B, c).values():
                S.ensure('no component damage after collapse or irreparable damage', bool(np.all(np.isnan(x[:, gone])) and not np.any(np.isnan(x[:, ~gone]))), f'{c}')
        hazus_losses(S, B, gone)


def hazus_losses(S, B, gone):
    r, n, a = B.r, B.n, B.a
    occ = str(r.choice(['RES1', 'COM4']))
    rows = {}
    cls = {c: c.split('.')[0] for c in B.C}
    for o in ('RES1', 'COM4'):
        for c in ('STR', 'NSA', 'NSD'):
            for v, u in (('Cost', 'loss_ratio'), ('Time', 'day')):
                rows[f'{c}.{o}', v] = {'Incomplete': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': u, **{f'DS{i}-Theta_0': float(r.uniform(0.01, 1)) for i in range(1, 6)}}
    given = {'Unit': 'day', 'Median': 77.0} if r.random() < 0.4 else None
    with tempdir() as d, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = os.path.join(d, 'consequence.csv')
        pd.DataFrame.from_dict({'-'.join(k): x for k, x in rows.items()}, orient='index').to_csv(f, index_label='ID')
        res = S.call(a.calculate_loss, 'Automatic', occ, None, f, None, 'Hazus Earthquake - Buildings', None, given, None, None, None, ('Cost', 'Time'))
    S.no_raise('losses', res)
    for v, name in (('Cost', 'repair_cost'), ('Time', 'repair_time')):
        t = res[0][[x for x in res[0].columns if str(x).startswith(name) or (isinstance(x, tuple) and x[0] == name)]]
        if v == 'Time':
            t = t[[x for x in t.columns if 'sequential' in str(x)]]
        got = t.iloc[:, 0].to_numpy(dtype=float)
        want = np.zeros(n)
        q = a.damage.ds_model.sample
        for x in q.columns:
            if x[0] in B.C and x[-1] != '0':
                want += np.nan_to_num(q[x].to_numpy(dtype=float)) * rows[f'{cls[x[0]]}.{occ}', v][f'DS{x[-1]}-Theta_0']
        want[gone] = 1.0 if v == 'Cost' else float(given['Median']) if given else rows[f'STR.{occ}', 'Time']['DS5-Theta_0']
        S.ensure('losses of the occupancy, and total loss after collapse or irreparable damage', bool(np.allclose(got, want, rtol=1e-9)), f'{v} {got} {want}')
        S.cover('losses')


@contract('C34', 'damage process choice', [DL + 'calculate_damage'], kind='runtime', runs=40, bound='up to 3 component types, 3 stories, 14 realizations', covers=['None', 'User Defined', 'no process', 'constant', 'untruncated', 'numbers as text', 'component sample'])
def choice(S):
    B = Building(S)
    names = list(B.C)
    which = S.case('process', ['None', 'User Defined', None])
    S.cover(which or 'no process')
    rules = {'1_collapse': {'DS1': f'{names[0]}_NA'}}
    with tempdir() as d, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = None
        if which == 'User Defined':
            f = os.path.join(d, 'process.json')
            with open(f, 'w') as h:
                json.dump(rules, h)
        a = B.run(d, which, f, loss=False)
    sampled(S, B)
    n = B.n
    col = B.over('collapse', lambda k: ('SA_1.13', '0', '1')) if B.kind == 'global' else np.zeros(n, dtype=bool)
    x = damage(B, 'collapse')
    got = x['1'].sum(axis=0) if '1' in x else np.zeros(n)
    S.ensure('collapse exactly where its capacity is exceeded', bool(np.array_equal(np.nan_to_num(got) == 1.0, col)), f'{got} {col}')
    for c in names:
        gone = col if which == 'User Defined' and c == names[0] else np.zeros(n, dtype=bool)
        for x in damage(B, c).values():
            S.ensure('damage is removed by the given process only', bool(np.all(np.isnan(x[:, gone])) and not np.any(np.isnan(x[:, ~gone]))), f'{c}')


METHODS = ['FEMA P-58', 'Hazus Earthquake', 'Hazus Earthquake - Buildings', 'Hazus Earthquake - Lifeline Facilities', 'Hazus Hurricane', 'User Defined']
CONSEQUENCES = pd.MultiIndex.from_tuples([('Incomplete', ''), ('Quantity', 'Unit'), ('DV', 'Unit'), *[(f'DS{i}', x) for i in (1, 5) for x in ('Family', 'Theta_0', 'Theta_1')]])


class Losses:
    """the loss model by its interface: it records what it is given"""

    def __init__(self):
        self.decision_variables, self.map, self.parameters, self.calls = None, None, None, []

    def add_loss_map(self, table, *a, **k):
        self.map = table
        self.calls.append('map')

    def load_model_parameters(self, x, *a, **k):
        self.parameters = x
        self.calls.append('parameters')

    def calculate(self, *a, **k):
        self.calls.append('calculate')

    def aggregate_losses(self, replacement_configuration=None, loss_combination=None, *, future=False):
        self.calls.append('aggregate')
        self.settings = (replacement_configuration, loss_combination, future)
        return pd.DataFrame({'total': [0.0]}), pd.DataFrame({'exceeded': [False]})


class Assets:
    """the asset model by its interface"""

    def __init__(self, names):
        self.names = names

    def save_cmp_sample(self, *a, **k):
        t = pd.MultiIndex.from_tuples([(c, l, '1', '0') for c in self.names for l in ('1', '2')], names=['cmp', 'loc', 'dir', 'uid'])
        return pd.DataFrame(np.ones((1, len(t))), columns=t)


def prepared(S, names, database, files=('a.csv',)):
    class Calculation(assessment.DLCalculationAssessment):
        def load_consequence_info(self, *x, **k):
            return database, list(files)

    a = Calculation({'Verbose': False, 'PrintLog': False, 'LogFile': None})
    a.loss, a.asset = Losses(), Assets(names)
    return a


def consequence_table(S, rows):
    data = np.empty((len(rows), len(CONSEQUENCES)), dtype=object)
    data[:] = np.nan
    for i, (key, x) in enumerate(rows):
        for j, c in enumerate(CONSEQUENCES):
            data[i, j] = {'Incomplete': 0, 'Quantity': '1 EA', 'DV': 'day'}[c[0]] if c[0] in ('Incomplete', 'Quantity', 'DV') else x if c == ('DS5', 'Theta_0') else np.nan
    return pd.DataFrame(data, index=pd.MultiIndex.from_tuples([k for k, x in rows], names=['ID', 'DV']), columns=CONSEQUENCES)


@contract('C34', 'replacement consequences', [DL + 'calculate_loss', 'pelicun.assessment._loss__add_replacement_cost', 'pelicun.assessment._loss__add_replacement_time', 'pelicun.assessment._loss__add_replacement_carbon', 'pelicun.assessment._loss__add_replacement_energy'],
          kind='bounded', modules=[assessment], runs=60, bound='six methods, every consequence given with and without a distribution or absent, databases that define the consequence of the occupancy once or twice (enumerated); all medians, parameters and database values symbolic; the loss and asset models by their interfaces',
          covers=['given', 'with distribution', 'default', 'of the occupancy', 'defined twice', 'not defined'])
def replacement(S):
    v = S.case('consequence', ['Cost', 'Time', 'Carbon', 'Energy'])
    method = S.case('method', METHODS)
    how = S.case('how', ['default', 'given', 'with distribution'])
    prefix = {'Hazus Earthquake - Buildings': 'STR', 'Hazus Earthquake - Lifeline Facilities': 'LF'}.get(method)
    twice = S.case('database', ['once', 'twice']) == 'twice'
    x, y, z = S.real('database', -1e6, 1e6), S.real('later database', -1e6, 1e6), S.real('other', -1e6, 1e6)
    rows = [(('STR.RES1', 'Time'), x), (('LF.RES1', 'Time'), x), (('STR.COM1', 'Time'), z), (('STR.RES1', 'Cost'), z)]
    if twice:
        rows += [(('STR.RES1', 'Time'), y), (('LF.RES1', 'Time'), y)]
        S.cover('defined twice')
    want, given = None, None
    if how == 'default':
        S.cover('default')
        if method == 'FEMA P-58':
            want = ({'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'kg', 'Energy': 'MJ'}[v], None, 0, None)
        elif v == 'Cost':
            want = ('loss_ratio', None, 1, None)
        elif v == 'Time' and prefix:
            S.cover('of the occupancy')
            want = ('day', None, y if twice else x, None)
        elif v == 'Time':
            want = ('loss_ratio', None, 1, None)
        else:
            S.cover('not defined')
    else:
        S.cover('given')
        given = {'Unit': S.case('unit', ['USD_2011', 'day']), 'Median': S.real('median', -1e6, 1e6)}
        want = (given['Unit'], None, given['Median'], None)
        if how == 'with distribution':
            S.cover('with distribution')
            given.update({'Distribution': S.case('distribution', ['normal', 'lognormal']), 'Theta_1': S.real('theta', 0, 10)})
            want = (given['Unit'], given['Distribution'], given['Median'], given['Theta_1'])
    a = prepared(S, ['B.10'], consequence_table(S, rows), ('a.csv', 'b.csv'))
    keep = None if given is None else dict(given)
    res = S.call(a.calculate_loss, 'Automatic', 'RES1', 'library', None, None, method, **{f'replacement_{v.lower()}_parameters': given})
    S.no_raise('losses', res)
    S.ensure('settings kept', given is None or (list(given) == list(keep) and all(given[k] is keep[k] for k in keep)))
    S.ensure('calculated once, with the parameters', a.loss.calls == ['map', 'parameters', 'calculate', 'aggregate'] or a.loss.calls == ['parameters', 'map', 'calculate', 'aggregate'], f'{a.loss.calls}')
    p = a.loss.parameters
    S.ensure('the databases in their order, then the replacement', [q for q in p if isinstance(q, str)] == ['a.csv', 'b.csv'] and isinstance(p[-1], pd.DataFrame) and len(p) == 3)
    t = p[-1]
    S.ensure('only the replacement is added', all(k[0] == 'replacement' for k in t.index))
    cell = lambda c: t.loc[('replacement', v), c] if ('replacement', v) in t.index else np.nan
    blank = lambda q: q is None or (isinstance(q, float) and q != q)
    if want is None:
        S.ensure('not defined without a value', all(blank(cell(c)) for c in CONSEQUENCES))
        return
    S.ensure('one piece in the given unit', cell(('Quantity', 'Unit')) == '1 EA' and cell(('DV', 'Unit')) == want[0], f"{cell(('DV', 'Unit'))} {want}")
    S.ensure('its median', S.exact(cell(('DS1', 'Theta_0')), want[2]), f"{cell(('DS1', 'Theta_0'))} {want}")
    S.ensure('its distribution', blank(cell(('DS1', 'Family'))) if want[1] is None else cell(('DS1', 'Family')) == want[1])
    if want[3] is None:
        S.ensure('no dispersion', blank(cell(('DS1', 'Theta_1'))))
    else:
        S.ensure('its dispersion', S.exact(cell(('DS1', 'Theta_1')), want[3]))
    S.ensure('only one damage state', all(blank(cell(c)) for c in CONSEQUENCES if c[0] == 'DS5'))


@contract('C34', 'loss maps', [DL + 'calculate_loss', 'pelicun.assessment._loss__map_auto', 'pelicun.assessment._loss__map_user'], kind='bounded', modules=[assessment], runs=60,
          bound='six methods, three occupancies, two components of five names, five databases, user maps with and without collapse and irreparable (enumerated)', covers=['same name', 'by occupancy', 'no consequence', 'user map', 'collapse given', 'no default collapse', 'refused'])
def maps(S):
    how = S.case('how', ['Automatic', 'User Defined', 'refused'])
    if how == 'Automatic':
        method = S.case('method', METHODS)
        occ = S.case('occupancy', ['RES1', 'COM1', None])
        names = S.case('components', [['STR.W1.LC', 'NSA'], ['B.10', 'collapse'], ['STR.RES1', 'STR.C3'], ['collapse'], ['LF', 'B']])
        listed = S.case('database', [['STR.RES1', 'LF.COM1'], ['B.10', 'STR.W1.LC'], ['STR', 'LF', 'B'], ['NSA.COM1', 'NSA'], ['collapse', 'STR.RES1', 'STR.RES1']])
        prefix = method in ('Hazus Earthquake - Buildings', 'Hazus Earthquake - Lifeline Facilities')
        rows = [((c, 'Cost'), 1.0) for c in listed] + [((f'{k}.{occ}', 'Time'), 2.0) for k in ('STR', 'LF') if prefix]
        a = prepared(S, names, consequence_table(S, rows))
        res = S.call(a.calculate_loss, 'Automatic', occ, 'library', None, None, method)
        S.no_raise('losses', res)
        db = {k[0] for k, x in rows}
        want = {'collapse': 'replacement', 'irreparable': 'replacement'}
        for c in names:
            if c == 'collapse':
                continue
            model = c if not method.startswith('Hazus Earthquake') else c.split('.')[0] if occ is None else f"{c.split('.')[0]}.{occ}"
            if model in db:
                want[c] = model
                S.cover('same name' if model == c else 'by occupancy')
            else:
                S.cover('no consequence')
        order = [c for c in names if c in want and c != 'collapse']
    elif how == 'User Defined':
        S.cover('user map')
        pairs = S.case('map', [{'B.10': 'x'}, {'B.10': 'B.10', 'collapse': 'other'}, {'irreparable': 'y', 'C': 'z', 'collapse': 'w'}, {'DMG-collapse': 'replacement', 'B.10': 'x'}, {'C': 'x', 'B.10': 'C'}])
        place = S.case('place', ['folder', 'path'])
        a = prepared(S, ['B.10'], consequence_table(S, [(('B.10', 'Cost'), 1.0)]))
        with tempdir() as d:
            pd.DataFrame({'Repair': list(pairs.values())}, index=list(pairs)).to_csv(os.path.join(d, 'map.csv'))
            res = S.call(a.calculate_loss, 'User Defined', 'RES1', 'library', None, d, 'FEMA P-58', loss_map_path='CustomDLDataFolder/map.csv' if place == 'folder' else os.path.join(d, 'map.csv'))
        S.no_raise('losses', res)
        want = dict(pairs)
        if 'DMG-collapse' not in pairs:
            want = {'collapse': 'replacement', 'irreparable': 'replacement', **pairs}
            S.cover('collapse given' if 'collapse' in pairs else 'user map')
        else:
            S.cover('no default collapse')
        order = list(pairs)
    else:
        S.cover('refused')
        which = S.case('which', ['approach', 'path', 'method'])
        a = prepared(S, ['B.10'], consequence_table(S, [(('B.10', 'Cost'), 1.0)]))
        k = {'loss_combination_method': 'unknown'} if which == 'method' else {}
        res = S.call(a.calculate_loss, {'approach': 'Other', 'path': 'User Defined', 'method': 'Automatic'}[which], 'RES1', 'library', None, '/nowhere' if which == 'path' else None, 'FEMA P-58', **k)
        S.refused('unknown approaches and missing maps are refused', res, 'ValueError')
        return
    t = a.loss.map
    S.ensure('each component has its consequence', {c: t.loc[c, 'Repair'] for c in t.index} == want and len(t.index) == len(want), f'{t} {want}')
    S.ensure('in the order of the components', [c for c in t.index if c in order] == order)
    S.ensure('calculated once', a.loss.calls.count('calculate') == 1)
