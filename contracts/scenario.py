"""complete assessments with random inputs (C08); does not depend on the verifier"""
import hashlib
import json
import os
import random
import warnings
import numpy as np
import pandas as pd
from pelicun import uq
from contracts.util import *
from contracts import gen


class Inputs:
    """random inputs that only depend on a number"""

    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)
        self.drawn, self.seed, self.symbolic = {}, seed, False

    def cover(self, _): pass


DV = {'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'kg', 'Energy': 'MJ'}


def table(rows):
    t = pd.DataFrame.from_dict(rows, orient='index')
    t.index = pd.MultiIndex.from_tuples(list(rows))
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    return t.astype(object).where(t.notna(), np.nan)


class Scenario:
    """a complete assessment in steps; every step yields result tables"""

    def __init__(self, seed, same_options=None):
        S = self.S = Inputs(seed)
        r = S.rng
        self.n, self.stories = int(r.integers(3, 9)), int(r.integers(1, 4))
        self.C = gen.components(S, self.stories, int(r.integers(2, 6)))
        self.options = {'Seed': int(r.integers(1, 10 ** 6)), 'RepairCostAndTimeCorrelation': float(r.choice([0.0, 0.7])), 'Sampling': {'SamplingMethod': str(r.choice(['LHS', 'MonteCarlo', 'LHS_midpoint']))},
                        'EconomiesOfScale': {'AcrossFloors': bool(r.integers(2)), 'AcrossDamageStates': bool(r.integers(2))}}
        self.dvs = [list(DV)[i] for i in r.permutation(4)[:int(r.integers(2, 5))]]
        self.numbers = r.uniform(0.5, 2, 400)
        self.flags = r.integers(0, 1000, 50)
        self.order = r.permutation(len(self.C))

    def demand_model(self):
        edps = []
        for t, u, s in gen.DEM.values():
            for loc in ([0] if t == 'PGA' else range(self.stories + 2)):
                for d in '12':
                    edps.append((t, str(loc), d, u, s))
        i = pd.MultiIndex.from_tuples([e[:3] for e in edps])
        m = pd.DataFrame({'Units': [e[3] for e in edps], 'Family': 'lognormal', 'Theta_0': [e[4] for e in edps], 'Theta_1': 0.5}, index=i)
        k = len(edps)
        c = pd.DataFrame(0.5 * np.ones((k, k)) + 0.5 * np.eye(k), index=i, columns=i)
        return {'marginals': m, 'correlation': c}

    def steps(self):
        num = iter(self.numbers.tolist())
        a = self.a = full_assessment(**self.options)
        a.demand.load_model(self.demand_model())
        a.demand.generate_sample({'SampleSize': self.n, 'PreserveRawOrder': False})
        yield 'demand', a.demand.sample
        a.stories = self.stories
        C = self.C
        a.asset.load_cmp_model({'marginals': pd.DataFrame({
            'Units': [c['qunit'] for c in C.values()], 'Location': [c['loc'] for c in C.values()], 'Direction': [c['dir'] for c in C.values()], 'Theta_0': [c['qty'] for c in C.values()],
            'Theta_1': [c['cov'] or np.nan for c in C.values()], 'Family': ['lognormal' if c['cov'] else None for c in C.values()], 'Blocks': [c['Blocks'] for c in C.values()]}, index=list(C))})
        a.asset.generate_cmp_sample(self.n)
        yield 'asset', a.asset.cmp_sample
        a.damage.load_model_parameters([gen.damage_table(C)], set(C))
        names = list(C)
        process = {f'{i}_{x}': {'DS1': f'{y}_DS1'} for i, (x, y) in enumerate(zip(names, names[1:])) if self.flags[i] % 3 == 0}
        scaling = {f'{names[0]}-1-1': {'LS1': '*1.2'}} if self.flags[20] % 2 and C[names[0]]['loc'] == '1' and C[names[0]]['dir'] == '1' else None
        a.damage.calculate(dmg_process=process or None, block_batch_size=int(self.flags[21] % 7 + 1), scaling_specification=scaling)
        yield 'damage', a.damage.ds_model.sample
        ds, lf = {}, {}
        for i, c in enumerate(C):
            for v in self.dvs:
                if self.flags[i] % 4 == 3:
                    lf[c, v] = {('Demand', 'Type'): C[c]['demand'], ('Demand', 'Unit'): C[c]['unit'], ('Demand', 'Offset'): C[c]['offset'], ('Demand', 'Directional'): C[c]['directional'], ('DV', 'Unit'): DV[v],
                                ('LossFunction', 'Theta_0'): f'0,{next(num)}|0,1e3', ('LossFunction', 'Family'): 'lognormal', ('LossFunction', 'Theta_1'): 0.3}
                else:
                    ds[c, v] = {('Incomplete', ''): 0, ('Quantity', 'Unit'): '1 EA', ('DV', 'Unit'): DV[v], **{(f'DS{k}', x): y for k in range(1, C[c]['nds'] + 1) for x, y in (('Family', 'lognormal'), ('Theta_0', next(num)), ('Theta_1', 0.4))}}
        for v in self.dvs:
            ds['replacement', v] = {('Incomplete', ''): 0, ('Quantity', 'Unit'): '1 EA', ('DV', 'Unit'): DV[v], ('DS1', 'Family'): 'lognormal', ('DS1', 'Theta_0'): 50 * next(num), ('DS1', 'Theta_1'): 0.3}
        a.loss.decision_variables = tuple(self.dvs)
        if self.flags[22] % 2:
            a.loss.add_loss_map(None, 'fill_all')
        else:
            k = [names[i] for i in self.order][:1]
            a.loss.add_loss_map(pd.DataFrame({'Repair': k}, index=k), 'fill')
        a.loss.load_model_parameters([table(x) for x in (ds, lf) if x])
        a.loss.calculate()
        yield 'loss', a.loss.ds_model.sample
        yield 'loss functions', a.loss.lf_model.sample
        thresholds = None
        agg = a.loss.aggregate_losses(future=True) if not self.flags[23] % 2 else a.loss.aggregate_losses(
            replacement_configuration=(self.replacement_registry(a), {v: 0.5 for v in self.dvs}), future=True)
        yield 'aggregate', agg[0] if isinstance(agg, tuple) else agg
        yield 'drawn afterwards', pd.DataFrame({'x': a.options.rng.random(5)})

    def replacement_registry(self, a):
        reg = uq.RandomVariableRegistry(a.options.rng)
        for v in self.dvs:
            reg.add_RV(uq.rv_class_map('lognormal')(name=v, theta=np.array([20.0, 0.4])))
        return reg

    def run(self):
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return {k: digest(t) for k, t in self.steps()}


def digest(t):
    """all labels and exact values"""
    if t is None:
        return None
    h = hashlib.sha256()
    h.update(repr([tuple(map(str, c)) if isinstance(c, tuple) else str(c) for c in t.columns]).encode())
    h.update(repr([str(x) for x in t.index]).encode())
    h.update(np.ascontiguousarray(t.to_numpy(dtype=float)).tobytes())
    return h.hexdigest()[:24]


def disturb(r):
    """change the state of all global generators"""
    random.seed(int(r.integers(10 ** 6)))
    np.random.seed(int(r.integers(10 ** 6)))
    np.random.random(int(r.integers(1, 50)))


def worker(seeds):
    disturb(np.random.default_rng(os.getpid()))
    print(json.dumps({str(s): Scenario(s).run() for s in seeds}))
