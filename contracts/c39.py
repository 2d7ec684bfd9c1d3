"""C39 results depend on the present inputs only, not on earlier calculations with the same assessment"""
import warnings
import numpy as np
import pandas as pd
from pelicun import uq
from pelicun.model import loss_model
from pyvc.contract import contract, Raised
from contracts import gen
from contracts.scenario import DV, Inputs, table
from contracts.util import *

M = 'pelicun.model.'
STEPS = ['demands', 'components', 'damage', 'losses', 'aggregate']


class Library:
    """damage and loss parameters of all component types"""

    def __init__(self, S):
        r = S.rng
        self.C = gen.components(S, 2, len(gen.IDS), max_ls=3)     # (up to nine damage states: their labels sort alike as text and as numbers)
        self.dvs = [list(DV)[i] for i in r.permutation(4)[:int(r.integers(2, 5))]]
        self.ds, self.lf = {}, {}
        # a type for which some tables of damage parameters have no row
        self.bare = list(self.C)[int(r.integers(len(self.C)))] if r.random() < 0.5 else None
        for c, p in self.C.items():
            kind = {v: r.random() < 0.3 for v in self.dvs}
            if r.random() < 0.5:
                kind = dict.fromkeys(self.dvs, kind[self.dvs[0]])
            if c == self.bare:
                kind = dict.fromkeys(self.dvs, True)
            for v in self.dvs:
                if r.random() < 0.1:
                    continue
                if kind[v]:
                    self.lf[c, v] = {('Demand', 'Type'): p['demand'], ('Demand', 'Unit'): p['unit'], ('Demand', 'Offset'): p['offset'], ('Demand', 'Directional'): p['directional'], ('DV', 'Unit'): DV[v],
                                     ('LossFunction', 'Theta_0'): f'0,{r.uniform(0.5, 2)}|0,1e3', ('LossFunction', 'Family'): 'lognormal', ('LossFunction', 'Theta_1'): 0.3}
                else:
                    self.ds[c, v] = {('Incomplete', ''): 0, ('Quantity', 'Unit'): '1 EA', ('DV', 'Unit'): DV[v],
                                     **{(f'DS{k}', x): y for k in range(1, p['nds'] + 1) for x, y in (('Family', 'lognormal'), ('Theta_0', r.uniform(0.5, 2)), ('Theta_1', 0.4))}}
        for v in self.dvs:
            self.ds['replacement', v] = {('Incomplete', ''): 0, ('Quantity', 'Unit'): '1 EA', ('DV', 'Unit'): DV[v], ('DS1', 'Family'): 'lognormal', ('DS1', 'Theta_0'): 50 * r.uniform(0.5, 2), ('DS1', 'Theta_1'): 0.3}


class Building:
    """components from the library at places and with demands of their own"""

    def __init__(self, S, L):
        r = self.r = S.rng
        self.L = L
        self.n = int(r.integers(3, 9))
        self.stories = int(r.integers(2, 4))
        ids = list(L.C)
        self.ids = [ids[i] for i in r.permutation(len(ids))[:int(r.integers(1, 5))]]
        self.C = {c: {**L.C[c], 'qty': float(r.uniform(1, 20)), 'Blocks': int(r.integers(1, 5)), 'cov': None if r.random() < 0.5 else 0.2} for c in self.ids}
        self.complete = r.random() < 0.5 or set(self.ids) == {L.bare}
        if not self.complete:
            self.ids.sort(key=lambda c: c == L.bare)
        self.with_blocks = r.random() < 0.7
        self.by_sample = r.random() < 0.3
        self.correlated = r.random() < 0.5
        self.scale = float(r.uniform(0.3, 2))
        self.demand_kind = str(r.choice(['model', 'sample', 'calibrated']))
        self.empirical = r.random() < 0.5
        self.residual = r.random() < 0.3
        self.expanded = r.random() < 0.3
        self.scaled = r.random() < 0.3
        self.process = {f'{i}_{x}': {'DS1': f'{y}_DS1'} for i, (x, y) in enumerate(zip(self.ids, self.ids[1:])) if r.random() < 0.4} or None
        c = self.ids[0]
        self.scaling = {f'{c}-1-1': {'LS1': '*1.2'}} if r.random() < 0.3 and self.C[c]['loc'] == '1' and self.C[c]['dir'] == '1' and 1 in self.C[c]['ls'] else None
        self.batch = int(r.integers(1, 8))
        self.dvs = [v for v in L.dvs if r.random() < 0.8] or L.dvs[:1]
        self.map = str(r.choice(['fill_all', 'fill', 'some']))
        self.replacement = r.random() < 0.5
        self.numbers = r.integers(1, 10 ** 6, 20)
        self.edps = [(t, str(loc), d, u, s) for t, u, s in gen.DEM.values() for loc in ([0] if t == 'PGA' else range(self.stories + 2)) for d in '12']

    def demand_model(self):
        i = pd.MultiIndex.from_tuples([e[:3] for e in self.edps])
        m = {'marginals': pd.DataFrame({'Units': [e[3] for e in self.edps], 'Family': 'lognormal', 'Theta_0': [e[4] * self.scale for e in self.edps], 'Theta_1': 0.5}, index=i)}
        k = len(i)
        if self.correlated:
            m['correlation'] = pd.DataFrame(0.5 * np.ones((k, k)) + 0.5 * np.eye(k), index=i, columns=i)
        return m

    def component_table(self):
        C = self.C
        t = pd.DataFrame({'Units': [c['qunit'] for c in C.values()], 'Location': [c['loc'] for c in C.values()], 'Direction': [c['dir'] for c in C.values()], 'Theta_0': [c['qty'] for c in C.values()],
                          'Theta_1': [c['cov'] or np.nan for c in C.values()], 'Family': ['lognormal' if c['cov'] else None for c in C.values()], 'Blocks': [c['Blocks'] for c in C.values()]}, index=list(C))
        return t if self.with_blocks else t.drop(columns='Blocks')

    def demands(self, a):
        i = pd.MultiIndex.from_tuples([e[:3] for e in self.edps])
        if self.demand_kind != 'model':
            g = np.random.default_rng(int(self.numbers[0]))
            t = pd.DataFrame({e[:3]: g.lognormal(np.log(e[4] * self.scale), 0.5, self.n) for e in self.edps})
            t.columns = i
            t = pd.concat([pd.DataFrame([[e[3] for e in self.edps]], columns=i, index=['Units']), t.astype(object)])
            a.demand.load_sample(t)
            if self.demand_kind == 'calibrated':
                a.demand.calibrate_model({'ALL': {'DistributionFamily': 'lognormal'}, **({'PID': {'DistributionFamily': 'empirical'}} if self.empirical else {})})
                a.demand.generate_sample({'SampleSize': self.n, 'PreserveRawOrder': False})
        else:
            a.demand.load_model(self.demand_model())
            a.demand.generate_sample({'SampleSize': self.n, 'PreserveRawOrder': False})
        if self.residual:
            a.demand.estimate_RID_and_adjust_sample({'yield_drift': 0.01})
        if self.expanded:
            a.demand.expand_sample('ONE', 1.0, 'unitless')
        model = {} if self.demand_kind == 'sample' else {'demand distributions': a.demand.marginal_params, 'demand correlation': a.demand.correlation, 'demand data': a.demand.empirical_data}
        return {**model, 'demands': a.demand.sample, 'demand units': a.demand.save_sample(save_units=True)[1].to_frame()}

    def components(self, a):
        a.stories = self.stories
        a.asset.load_cmp_model({'marginals': self.component_table()})
        a.asset.generate_cmp_sample(self.n)
        return {'components': a.asset.cmp_sample, 'component units': a.asset.save_cmp_sample(save_units=True)[1].to_frame()}

    def damage(self, a):
        t = gen.damage_table(self.L.C)
        if not self.complete:
            t = t.drop(index=[self.L.bare], errors='ignore')
        a.damage.load_model_parameters([t], set(self.C))
        a.damage.calculate(dmg_process=self.process, block_batch_size=self.batch, scaling_specification=self.scaling)
        return {'damage': a.damage.save_sample(), 'damage units': a.damage.save_sample(save_units=True)[1].to_frame()}

    def losses(self, a):
        a.loss.decision_variables = tuple(self.dvs)
        if self.map == 'fill_all':
            a.loss.add_loss_map(None, 'fill_all')
        else:
            k = self.ids[:1]
            a.loss.add_loss_map(pd.DataFrame({'Repair': k}, index=k), 'fill' if self.map == 'fill' else None)
        a.loss.load_model_parameters([table(x) for x in (self.L.ds, self.L.lf) if x])
        a.loss.calculate()
        if self.scaled:
            with tempdir() as d:
                pd.DataFrame({'Decision Variable': [self.dvs[0]], 'Scale Factor': [2.0]}).to_csv(f'{d}/s.csv', index=False)
                a.loss.consequence_scaling(f'{d}/s.csv')
        return {'losses of damage': a.loss.ds_model.sample, 'loss functions': a.loss.lf_model.sample, 'losses': a.loss.sample}

    def aggregate(self, a):
        k = {}
        known = [v for v in self.dvs if (self.ids[0], v) in self.L.ds or (self.ids[0], v) in self.L.lf]
        if self.replacement and known == self.dvs:
            reg = uq.RandomVariableRegistry(a.options.rng)
            for v in known:
                reg.add_RV(uq.rv_class_map('lognormal')(name=v, theta=np.array([20.0, 0.4])))
            k['replacement_configuration'] = (reg, {v: 0.5 for v in known})
        x = a.loss.aggregate_losses(future=True, **k)
        return {'aggregate': x[0], 'replacement': x[1]}


def labels(i):
    return [tuple(map(str, c)) if isinstance(c, tuple) else str(c) for c in i]


def same(x, y):
    if x is None or y is None:
        return x is None and y is None
    if isinstance(x, pd.Series):
        x, y = x.to_frame(), y.to_frame() if isinstance(y, pd.Series) else y
    if labels(x.columns) != labels(y.columns) or labels(x.index) != labels(y.index):
        return False
    for i in range(x.shape[1]):
        p, q = x.iloc[:, i].to_numpy(), y.iloc[:, i].to_numpy()
        try:
            ok = np.allclose(p.astype(float), q.astype(float), rtol=1e-9, atol=0, equal_nan=True)
        except (TypeError, ValueError):
            ok = list(map(str, p)) == list(map(str, q))
        if not ok:
            return False
    return True


def difference(x, y):
    if x is None or y is None:
        return f'{x} / {y}'[:800]
    if labels(x.columns) != labels(y.columns):
        return {'columns': [labels(x.columns)[:5], labels(y.columns)[:5]]}
    return f'{x.iloc[:3, :4]} / {y.iloc[:3, :4]}'


@contract('C39', 'after other calculations', [M + 'demand_model.DemandModel.load_model', M + 'demand_model.DemandModel.load_sample', M + 'demand_model.DemandModel.generate_sample', M + 'asset_model.AssetModel.load_cmp_model', M + 'asset_model.AssetModel.generate_cmp_sample',
                                              M + 'damage_model.DamageModel.load_model_parameters', M + 'damage_model.DamageModel.calculate', M + 'loss_model.LossModel.add_loss_map', M + 'loss_model.LossModel.load_model_parameters', M + 'loss_model.LossModel.calculate',
                                              M + 'loss_model.LossModel.aggregate_losses'], kind='runtime', runs=60,
          bound='up to 2 earlier buildings of up to 4 component types, complete or interrupted after any step; steps repeated', covers=STEPS + ['repeated step', 'interrupted', 'model', 'sample', 'calibrated'])
def history(S):
    r = S.rng
    L = Library(S)
    B = Building(S, L)
    B.complete = True     # parameters that are loaded extend those loaded before
    S.cover(B.demand_kind)
    options = {'Seed': 1, 'RepairCostAndTimeCorrelation': float(r.choice([0.0, 0.7])), 'Sampling': {'SamplingMethod': str(r.choice(['LHS', 'MonteCarlo', 'LHS_midpoint']))},
               'ListAllDamageStates': bool(r.integers(2)), 'EconomiesOfScale': {'AcrossFloors': bool(r.integers(2)), 'AcrossDamageStates': bool(r.integers(2))}}
    S.drawn.update(options=options, components=B.C, map=B.map, dvs=B.dvs)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fresh = full_assessment(**options)
        want = {}
        for k in STEPS:
            fresh.options.seed = 7
            want[k] = S.call(getattr(B, k), fresh)
            S.no_raise(f'{k} calculated', want[k])
            want[k] = {x: None if t is None else t.copy() for x, t in want[k].items()}
        a = full_assessment(**options)
        for i in range(S.int('earlier', 0, 2)):
            A = B if r.random() < 0.2 else Building(S, L)
            stop = S.int(f'steps {i}', 1, 5)
            for k in STEPS[:stop]:
                S.no_raise(f'{k} of an earlier building', S.call(getattr(A, k), a))
            if stop < 5:
                S.cover('interrupted')
        for k in STEPS:
            if r.random() < 0.3:
                S.no_raise(f'{k} before it is repeated', S.call(getattr(B, k), a))
                S.cover('repeated step')
            a.options.seed = 7
            got = S.call(getattr(B, k), a)
            S.no_raise(f'{k} calculated after other calculations', got)
            for x in want[k]:
                S.ensure(f'{x}: as in a new assessment', same(got[x], want[k][x]), difference(got[x], want[k][x]))
            S.cover(k)


@contract('C39', 'resumed from saved results', [M + 'demand_model.DemandModel.load_sample', M + 'asset_model.AssetModel.load_cmp_sample', M + 'damage_model.DamageModel.load_sample', M + 'damage_model.DamageModel.save_sample', M + 'damage_model.DamageModel.calculate', M + 'loss_model.LossModel.calculate'],
          kind='runtime', runs=40, bound='up to 4 component types of one block each; any of the demands, the components and the damage loaded from files saved earlier, in a new or a used assessment',
          covers=STEPS + ['loaded demands', 'loaded components', 'loaded damage', 'used'])
def resumed(S):
    r = S.rng
    L = Library(S)
    B = Building(S, L)
    B.complete = True     # parameters that are loaded extend those loaded before
    B.with_blocks = False
    options = {'Seed': 1, 'RepairCostAndTimeCorrelation': float(r.choice([0.0, 0.7])), 'ListAllDamageStates': bool(r.integers(2)), 'EconomiesOfScale': {'AcrossFloors': bool(r.integers(2)), 'AcrossDamageStates': bool(r.integers(2))}}
    S.drawn.update(options=options, components=B.C, map=B.map, dvs=B.dvs)

    def load(a, k, d):
        if k == 'demands':
            a.demand.load_sample(f'{d}/demands.csv')
            return {'demands': a.demand.sample, 'demand units': a.demand.save_sample(save_units=True)[1].to_frame()}
        if k == 'components':
            a.stories = B.stories
            a.asset.load_cmp_sample(f'{d}/components.csv')
            return {'components': a.asset.cmp_sample}
        a.damage.load_sample(f'{d}/damage.csv')
        return {'damage': a.damage.save_sample()}
    with tempdir() as d, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        first = full_assessment(**options)
        want = {}
        for k in STEPS:
            first.options.seed = 7
            want[k] = S.call(getattr(B, k), first)
            S.no_raise(f'{k} calculated', want[k])
            want[k] = {x: None if t is None else t.copy() for x, t in want[k].items()}
            if k in STEPS[:3]:
                S.no_raise(f'{k} saved', S.call({'demands': first.demand.save_sample, 'components': first.asset.save_cmp_sample, 'damage': first.damage.save_sample}[k], f'{d}/{k}.csv'))
        a = full_assessment(**options)
        if r.random() < 0.4:
            A = Building(S, L)
            for k in STEPS:
                S.no_raise(f'{k} of an earlier building', S.call(getattr(A, k), a))
            S.cover('used')
        for k in STEPS:
            a.options.seed = 7
            if k in STEPS[:3] and r.random() < 0.6:
                S.cover(f'loaded {k}')
                got = S.call(load, a, k, d)
                S.no_raise(f'{k} loaded', got)
            else:
                got = S.call(getattr(B, k), a)
                S.no_raise(f'{k} calculated from loaded results', got)
            for x in want[k]:
                if x in got:
                    S.ensure(f'{x}: as calculated without saving', same(got[x], want[k][x]), difference(got[x], want[k][x]))
            S.cover(k)


@contract('C39', 'losses in any state', [M + 'loss_model.LossModel.calculate', M + 'loss_model.RepairModel_DS.calculate', M + 'loss_model.RepairModel_LF.calculate', M + 'loss_model.LossModel.sample'], kind='bounded', modules=[loss_model], runs=40, max_paths=20000,
          bound='symbolic: two components, one decision variable, one realization, arbitrary quantities, unit consequences and results of an earlier calculation; with and without damage, damage consequences and loss functions',
          covers=['damage', 'functions', 'both', 'neither'])
def any_state(S):
    dt = object if S.symbolic else float
    a = full_assessment()
    col = lambda *t: pd.MultiIndex.from_tuples(t)
    has_ds, has_lf = S.case('damage consequences', [True, False]), S.case('loss functions', [True, False])
    state = S.case('damage', ['none', 'of A', 'of B'])
    y, z, q, k = (S.real(x, lo=0, scale=10) for x in ('unit consequence', 'loss function', 'damaged', 'quantity'))
    a.loss.decision_variables = ('Cost',)
    cols = pd.MultiIndex.from_tuples([('A', '1', '1', '0'), ('B', '1', '1', '0')], names=['cmp', 'loc', 'dir', 'uid'])
    a.asset.cmp_sample = pd.DataFrame(np.array([[1.0, k]], dtype=dt), columns=cols)
    a.asset.cmp_marginal_params = pd.DataFrame({'Blocks': 1}, index=cols)
    a.demand.sample = pd.DataFrame([[2.0]], columns=pd.MultiIndex.from_tuples([('PFA', '1', '1')], names=['type', 'loc', 'dir']))
    if state != 'none':
        a.damage.ds_model.sample = pd.DataFrame(np.array([[q]], dtype=dt), columns=pd.MultiIndex.from_tuples([(state[-1], '1', '1', '0', '1')], names=['cmp', 'loc', 'dir', 'uid', 'ds']))
    for m in (a.loss.ds_model, a.loss.lf_model):
        m.decision_variables = ('Cost',)
        m.loss_map = pd.DataFrame({'Repair': ['A', 'B']}, index=['A', 'B'])
        m.missing = set()
    if has_ds:
        a.loss.ds_model.loss_params = pd.DataFrame(np.array([[y]], dtype=dt), index=col(('A', 'Cost')), columns=col(('DS1', 'Theta_0')))
    if has_lf:
        a.loss.lf_model.loss_params = pd.DataFrame([['Peak Floor Acceleration', 1, 1, '0,4|0,8']], index=col(('B', 'Cost')), columns=col(('Demand', 'Type'), ('Demand', 'Offset'), ('Demand', 'Directional'), ('LossFunction', 'Theta_0')))
    # results of an earlier calculation
    if S.case('earlier damage', [False, True]):
        c = pd.MultiIndex.from_tuples([('Cost', 'A', 'A', '1', '1', '1', '0'), ('Time', 'C', 'C', '1', '1', '1', '0')], names=['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'])
        a.loss.ds_model.sample = pd.DataFrame(np.array([[S.real('old 1', scale=9), S.real('old 2', scale=9)]], dtype=dt), columns=c)
    if S.case('earlier functions', [False, True]):
        c = pd.MultiIndex.from_tuples([('Cost', 'B', 'B', '1', '1', '0')], names=['dv', 'loss', 'dmg', 'loc', 'dir', 'uid'])
        a.loss.lf_model.sample = pd.DataFrame(np.array([[S.real('old 3', scale=9)]], dtype=dt), columns=c)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        S.no_raise('calculated', S.call(a.loss.calculate))
    got = {}
    for m in (a.loss.ds_model, a.loss.lf_model):
        if m.sample is not None:
            for c in m.sample.columns:
                d = dict(zip(m.sample.columns.names, c))
                got[d['dv'], d['dmg'], d.get('ds')] = m.sample[c].iloc[0]
    want = {}
    if has_ds and state == 'of A':
        want['Cost', 'A', '1'] = q * y
    if has_lf:
        want['Cost', 'B', None] = 1.0 * k
    S.cover('both' if len(want) == 2 else 'neither' if not want else 'damage' if has_ds and state == 'of A' else 'functions')
    S.ensure('exactly the losses of the present inputs', set(got) == set(want), f'{sorted(map(str, got))} {sorted(map(str, want))}')
    for x, w in want.items():
        S.ensure('the losses are calculated from the present inputs', S.eq(got[x], w) if S.symbolic else bool(np.isclose(got[x], w, rtol=1e-9)), f'{x}')


@contract('C39', 'in one call', ['pelicun.assessment.Assessment.calculate_damage', 'pelicun.assessment.Assessment.calculate_loss', 'pelicun.assessment.Assessment.aggregate_loss'], kind='runtime', runs=50,
          bound='up to 4 component types; with and without residual drifts, added demands, damage processes, scaled capacities, replacement thresholds and loss combinations', covers=['residual', 'expanded', 'process', 'scaled', 'replacement', 'combination', 'mapped'])
def one_call(S):
    r = S.rng
    L = Library(S)
    B = Building(S, L)
    B.demand_kind = 'model'
    B.scaled = False
    B.expanded = r.random() < 0.5
    yd = float(r.choice([0.005, 0.01, 0.02]))
    movable = [c for c in B.ids if B.C[c]['type'] != 'PGA']
    join = len(movable) > 1 and r.random() < 0.5
    if join:
        for c in movable[:2]:
            B.C[c].update(loc='1', dir='1')
    if movable and r.random() < 0.4:
        B.C[movable[0]].update(loc='1', dir='1')
        B.scaling = {f'{movable[0]}-1-1': {f'LS{list(B.C[movable[0]]["ls"])[0]}': '*1.2'}}
    label, value, unit = str(r.choice(['ONE', 'PWX'])), float(r.uniform(0.5, 3)), str(r.choice(['unitless', 'g']))
    batch = int(r.integers(1, 8))
    options = {'Seed': 1, 'RepairCostAndTimeCorrelation': float(r.choice([0.0, 0.7])), 'ListAllDamageStates': bool(r.integers(2))}
    m, cmp, lib = B.demand_model(), {'marginals': B.component_table()}, gen.damage_table(L.C)
    config = {'SampleSize': B.n, 'PreserveRawOrder': False}
    policy = str(r.choice(['fill', 'fill_all', 'none']))
    given = None if policy != 'none' and r.random() < 0.5 else pd.DataFrame({'Repair': B.ids[:1]}, index=B.ids[:1])
    policy = None if policy == 'none' else policy
    tables = [table(x) for x in (L.ds, L.lf) if x]
    known = [v for v in B.dvs if (B.ids[0], v) in L.ds or (B.ids[0], v) in L.lf]
    replace = B.replacement and known == B.dvs
    combine = {B.dvs[0]: {(movable[0], movable[1]): np.array([[0.0, 1e3, 1e12], [1e3, 1.5e3, 1e12], [1e12, 1e12, 1.5e12]])}} if join else None

    def thresholds(a):
        if not replace:
            return None
        reg = uq.RandomVariableRegistry(a.options.rng)
        for v in known:
            reg.add_RV(uq.rv_class_map('lognormal')(name=v, theta=np.array([20.0, 0.4])))
        return reg, {v: 0.5 for v in known}

    def copies(x):
        return x.copy() if x is not None else None

    def state(a):
        return {'demands': a.demand.sample, 'demand units': a.demand.user_units.to_frame(), 'components': a.asset.cmp_sample, 'damage': a.damage.ds_model.sample, 'losses of damage': a.loss.ds_model.sample, 'loss functions': a.loss.lf_model.sample, 'stories': a.stories}
    S.drawn.update(options=options, components=B.C, dvs=B.dvs, policy=policy, process=B.process, scaling=B.scaling, combine=None if combine is None else list(combine), batch=batch)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a, b = full_assessment(**options), full_assessment(**options)
        a.options.seed = b.options.seed = 7
        demand = {k: v.copy() for k, v in m.items()}
        S.no_raise('demands in steps', S.call(a.demand.load_model, {k: v.copy() for k, v in m.items()}))
        S.no_raise('demands in steps', S.call(a.demand.generate_sample, dict(config)))
        if B.residual:
            S.no_raise('residual drifts in steps', S.call(a.demand.estimate_RID_and_adjust_sample, {'yield_drift': yd}, 'FEMA P58'))
        if B.expanded:
            S.no_raise('added demand in steps', S.call(a.demand.expand_sample, label, value, unit))
        a.stories = B.stories
        S.no_raise('components in steps', S.call(a.asset.load_cmp_model, {k: v.copy() for k, v in cmp.items()}))
        S.no_raise('components in steps', S.call(a.asset.generate_cmp_sample))
        S.no_raise('damage in steps', S.call(a.damage.load_model_parameters, [lib.copy()], set(B.ids)))
        S.no_raise('damage in steps', S.call(a.damage.calculate, dmg_process=B.process, block_batch_size=batch, scaling_specification=B.scaling))
        one = S.call(b.calculate_damage, B.stories, dict(config), demand, cmp, [lib], **({'dmg_process': B.process} if B.process else {}), **({'scaling_specification': B.scaling} if B.scaling else {}),
                     **({'residual_drift_configuration': {'parameters': {'yield_drift': yd}, 'method': 'FEMA P58'}} if B.residual else {}),
                     **({'collapse_fragility_configuration': {'label': label, 'value': value, 'unit': unit}} if B.expanded else {}), block_batch_size=batch)
        S.no_raise('damage in one call', one)
        x = [{k: copies(v) if k != 'stories' else v for k, v in state(w).items()} for w in (a, b)]
        for k in x[0]:
            S.ensure(f'{k}: as in steps', x[0][k] == x[1][k] if k == 'stories' else same(x[1][k], x[0][k]), '' if k == 'stories' else difference(x[1][k], x[0][k]))
        a.loss.decision_variables = tuple(B.dvs)
        S.no_raise('losses in steps', S.call(a.loss.add_loss_map, copies(given), policy))
        S.no_raise('losses in steps', S.call(a.loss.load_model_parameters, [t.copy() for t in tables]))
        S.no_raise('losses in steps', S.call(a.loss.calculate))
        S.no_raise('losses in one call', S.call(b.calculate_loss, tuple(B.dvs), [t.copy() for t in tables], copies(given), policy))
        x = [{k: copies(v) for k, v in state(w).items() if k != 'stories'} for w in (a, b)]
        for k in x[0]:
            S.ensure(f'{k}: as in steps', same(x[1][k], x[0][k]), difference(x[1][k], x[0][k]))
        want = S.call(a.loss.aggregate_losses, replacement_configuration=thresholds(a), loss_combination=combine, future=True)
        got = S.call(b.aggregate_loss, thresholds(b), combine)
    if isinstance(want, Raised):
        S.ensure('refused like the step', isinstance(got, Raised) and got.msg == want.msg, f'{got} {want}')
        S.stop()
    S.no_raise('totals in one call', got)
    for k, p, q in zip(('totals', 'replacement'), got, want):
        S.ensure(f'{k}: as in steps', same(p, q), difference(p, q))
    x = state(b)
    S.ensure('aggregating leaves the losses as they are', same(x['losses of damage'], state(a)['losses of damage']))
    for k, v in {'residual': B.residual, 'expanded': B.expanded, 'process': B.process, 'scaled': B.scaling, 'replacement': replace, 'combination': combine, 'mapped': given is not None}.items():
        if v:
            S.cover(k)
