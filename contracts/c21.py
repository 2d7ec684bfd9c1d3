"""C21 repair consequences are quantity times unit consequence times uncertainty"""
import warnings
import numpy as np
import pandas as pd
from scipy.stats import norm
from pelicun import base, uq
from pelicun.model import demand_model, loss_model
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite
from contracts.util import *
from contracts import gen

LM = 'pelicun.model.loss_model.'
DV_UNIT = {'Cost': ['USD_2011', 'loss_ratio'], 'Time': ['worker_day', 'loss_ratio'], 'Carbon': ['kg', 'lb'], 'Energy': ['MJ', 'kWh']}
DV_UNIT = {k: [u for u in v if u in gen.REAL] for k, v in DV_UNIT.items()}


class registries:
    """collects the random variable registries the model samples"""

    def __init__(self):
        self.rv = {}

    def __enter__(self):
        real = uq.RandomVariableRegistry.generate_sample
        me = self

        def wrapped(self_, *p, **k):
            r = real(self_, *p, **k)
            for name, v in self_.RV.items():
                me.rv[name] = v
            return r
        self.s = swap(uq.RandomVariableRegistry, 'generate_sample', wrapped)
        self.s.__enter__()
        return self

    def __exit__(self, *a):
        self.s.__exit__(*a)


def number(x):
    return float(f'{x:.5g}')


def spec(S, scale, arg_scale, curve):
    """one consequence: median (number or curve), family, dispersion"""
    fam = [None, 'normal', 'lognormal'][int(S.rng.integers(3))]
    if curve:
        k = int(S.rng.integers(2, 5))
        x = sorted({number(v) for v in S.rng.uniform(0.1, 3, k) * arg_scale})
        y = [number(v) for v in S.rng.uniform(0.3, 2, len(x)) * scale]
        return {'x': x, 'y': y, 'family': fam, 'disp': number(S.rng.uniform(0.1, 0.5)) if fam else None}
    return {'y': number(S.rng.uniform(0.3, 2) * scale), 'family': fam, 'disp': number(S.rng.uniform(0.1, 0.5)) if fam else None}


def text(p):
    if 'x' in p:
        return ','.join(map(repr, p['y'])) + '|' + ','.join(map(repr, p['x']))
    return p['y']


def check_deviation(S, rv, p, unit_factor, what):
    """the sampled deviation is the requested distribution, truncated at zero, at the level of the variable"""
    u = np.asarray(rv.uni_sample)
    m = 1.0 if 'x' in p else p['y'] * unit_factor
    if p['family'] == 'normal':
        pa = norm.cdf((0 - m) / (m * p['disp']))
        want = norm.ppf(pa + u * (1 - pa), m, m * p['disp'])
    else:
        want = m * np.exp(norm.ppf(u) * p['disp'])
    S.ensure('deviation drawn from the distribution of that consequence', bool(np.allclose(rv.sample, want, rtol=1e-7)), what)


@contract('C21', 'damage consequences', [LM + 'RepairModel_DS.calculate', LM + 'RepairModel_DS._calc_median_consequence', LM + 'RepairModel_DS._create_DV_RVs', LM + 'RepairModel_DS.convert_loss_parameter_units', LM + 'LossModel.load_model_parameters',
                                         LM + 'LossModel.add_loss_map', LM + 'LossModel.calculate', LM + '_prep_bounded_multilinear_median_DV', LM + '_prep_constant_median_DV', 'pelicun.model.pelicun_model.PelicunModel._convert_marginal_params'],
          kind='runtime', runs=220, bound='up to 4 component types, 6 groups each, 4 damage states, 4 decision variables, 8 realizations; all four economies of scale',
          covers=['curve', 'random', 'extended map', 'not mapped', 'not available', 'no deviation', 'across floors', 'across damage states', 'across both', 'separate', 'shared consequence', 'damage state without columns', 'no consequence'])
def damage(S):
    n = S.int('n', 1, 8)
    floors, states = S.case('across floors', [True, False]), S.case('across damage states', [True, False])
    S.cover({(1, 1): 'across both', (1, 0): 'across floors', (0, 1): 'across damage states', (0, 0): 'separate'}[int(floors), int(states)])
    a = full_assessment(Seed=S.int('rng', 1, 10 ** 6), EconomiesOfScale={'AcrossFloors': floors, 'AcrossDamageStates': states})
    types = [str(c) for c in S.rng.permutation(gen.IDS)[:S.int('types', 1, 4)]]
    if S.rng.random() < 0.2:
        types[0] = 'excessiveRID'
    qunit = {c: str(S.rng.choice(['ea', 'ft2', 'm'])) for c in types}
    nds = {c: int(S.rng.integers(1, 5)) for c in types}
    complete = S.rng.random() < 0.6                                    # every damage state listed
    groups, dmg = {}, {}
    for c in types:
        groups[c] = sorted({(str(S.rng.integers(0, 4)), str(S.rng.integers(0, 3)), str(S.rng.integers(0, 2))) for _ in range(int(S.rng.integers(1, 7)))})
        for g in groups[c]:
            total = S.rng.uniform(0.5, 5) * gen.REAL[qunit[c]]
            ds = S.rng.integers(0, nds[c] + 1, n)
            na = S.rng.random(n) < 0.1 if S.rng.random() < 0.3 else np.zeros(n, bool)
            for d in range(nds[c] + 1):
                v = np.where(na, np.nan, np.where(ds == d, total, 0.0))
                if complete or (ds[~na] == d).any():
                    dmg[(c, *g, str(d))] = v
    if not dmg:
        return
    D = pd.DataFrame(dmg)
    D.columns = pd.MultiIndex.from_tuples(list(dmg), names=['cmp', 'loc', 'dir', 'uid', 'ds'])
    D = D.sort_index(axis=1)
    dvs = [str(x) for x in S.rng.permutation(list(DV_UNIT))[:int(S.rng.integers(1, 5))]]
    dv_unit = {v: str(S.rng.choice(DV_UNIT[v])) for v in dvs}
    # consequences and the loss map
    cons = {}
    names = {}
    for c in types:
        names[c] = c if S.rng.random() < 0.5 else ('K.' + c if S.rng.random() < 0.7 else 'K.shared')
        key = names[c]
        if key in cons:
            S.cover('shared consequence')
            continue
        cons[key] = {}
        for v in dvs:
            if S.rng.random() < 0.15:
                continue
            q = str(S.rng.choice(['1 EA', '1 ft2', '10 m', '2 m2']))
            cons[key][v] = {'q': q, 'ds': {d: spec(S, 100.0, 1.0, S.rng.random() < 0.5) for d in range(1, int(S.rng.integers(1, 5)) + 1) if S.rng.random() < 0.9}}
    rows = {(k, v): p for k, vs in cons.items() for v, p in vs.items() if p['ds']}
    if not rows:
        return
    t, most = {}, max(max(p['ds']) for p in rows.values())
    for (k, v), p in rows.items():
        r = {('Incomplete', ''): 0, ('Quantity', 'Unit'): p['q'], ('DV', 'Unit'): dv_unit[v]}
        for d in range(1, most + 1):
            s = p['ds'].get(d)
            r |= {(f'DS{d}', 'Family'): s and s['family'], (f'DS{d}', 'Theta_0'): s and text(s), (f'DS{d}', 'Theta_1'): s and s['disp']}
        t[k, v] = r
    t = pd.DataFrame.from_dict(t, orient='index')
    t.index = pd.MultiIndex.from_tuples(list(rows))
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    t = t.astype(object).where(t.notna(), np.nan)
    if S.rng.random() < 0.5:
        t = t.iloc[S.rng.permutation(len(t)), S.rng.permutation(t.shape[1])]
    if ('DS1', 'Theta_0') not in t.columns:
        return
    cols = pd.MultiIndex.from_tuples([(c, *g) for c in types for g in groups[c]], names=['cmp', 'loc', 'dir', 'uid'])
    a.demand.sample = pd.DataFrame({('PID', '1', '1'): np.ones(n)})
    a.asset.cmp_sample = pd.DataFrame(1.0, index=range(n), columns=cols)
    a.asset.cmp_marginal_params = pd.DataFrame({'Theta_0': 1.0}, index=cols)
    a.damage.ds_model.sample = D
    a.loss.decision_variables = tuple(dvs)
    # the loss map: complete, or extended to the components that it leaves out
    policy = [None, 'fill', 'fill_all'][S.case('policy', [0, 1, 2])]
    listed = [c for c in types if policy is None or names[c] != c or S.rng.random() < 0.3]
    lm = pd.DataFrame({'Repair': [names[c] for c in listed]}, index=listed) if listed else None
    if len(listed) < len(types):
        S.cover('extended map')
    if policy == 'fill' and 'excessiveRID' not in listed and 'excessiveRID' in types:
        S.cover('not mapped')
        names['excessiveRID'] = None
    if lm is not None and S.rng.random() < 0.15:
        lm.index = ['DMG-' + c for c in listed]
    S.drawn.update(damage={str(k): list(map(float, v)) for k, v in dmg.items()}, consequences={str(k): v for k, v in rows.items()}, map=names, units=dv_unit)
    with quiet(), warnings.catch_warnings(), registries() as reg:
        warnings.simplefilter('ignore')
        with tempdir() as d:
            if lm is not None and S.rng.random() < 0.3:
                lm.to_csv(f'{d}/map.csv')
                lm = f'{d}/map.csv'
            r = S.call(a.loss.add_loss_map, lm) if policy is None else S.call(a.loss.add_loss_map, lm, policy)
            S.no_raise('map loaded', r)
        r = S.call(a.loss.load_model_parameters, [t])
        S.no_raise('parameters loaded', r)
        snap = D.copy(deep=True)
        r = S.call(a.loss.calculate)
    S.no_raise('calculated', r)
    S.ensure('damage sample kept', D.equals(snap))
    want = {}
    for v in dvs:
        for c in types:
            p = rows.get((names[c], v))
            if p is None:
                S.cover('no consequence')
                continue
            num, unit = p['q'].split()
            arg = 1.0 if p['q'] == '1 EA' else float(num) * gen.REAL[unit]
            uf = gen.REAL[dv_unit[v]]
            for d, s in p['ds'].items():
                for g in groups[c]:
                    k = (c, *g, str(d))
                    if k not in dmg:
                        S.cover('damage state without columns')
                        continue
                    q = np.nan_to_num(dmg[k], nan=0.0)
                    if np.isnan(dmg[k]).any():
                        S.cover('not available')
                    scope = [x for x in dmg if x[0] == c and x[4] != '0' and (floors or x[1] == g[0]) and (states or x[4] == str(d))]
                    eco = np.sum([np.nan_to_num(dmg[x], nan=0.0) for x in scope], axis=0)
                    if 'x' in s:
                        S.cover('curve')
                        med = np.array([float(np.interp(e, np.array(s['x']) * arg, np.array(s['y']) * uf / arg)) for e in eco])
                    else:
                        med = s['y'] * uf / arg
                    if s['family']:
                        S.cover('random')
                        rv = reg.rv.get(f'{v}-{c}-{d}-{g[0]}-{g[1]}-{g[2]}')
                        S.ensure('own deviation for every consequence', rv is not None, f'{v} {k}')
                        if rv is None:
                            return
                        check_deviation(S, rv, s, uf / arg, f'{v} {k}')
                        dev = rv.sample if 'x' in s else rv.sample / med
                    else:
                        S.cover('no deviation')
                        dev = 1.0
                    want[(v, names[c], c, str(d), *g)] = q * med * dev
    L = a.loss.ds_model.sample
    got = {} if L is None else {tuple(map(str, c)): L[c].to_numpy(dtype=float) for c in L.columns}
    for k, w in want.items():
        if k not in got:
            S.ensure('every consequence is in the results', not np.any(w), f'{k}: {w}')
        else:
            S.ensure('quantity times unit consequence times deviation', bool(np.allclose(got[k], w, rtol=1e-6, atol=1e-12)), f'{k}: {got[k]} instead of {w}')
            S.ensure('zero where nothing is damaged', bool(np.all(got[k][w == 0] == 0)), f'{k}')
    for k in got:
        S.ensure('no other consequences', k in want or not np.any(got[k]), f'{k}')


@contract('C21', 'loss functions', [LM + 'RepairModel_LF.calculate', LM + 'RepairModel_LF._calc_median_consequence', LM + 'RepairModel_LF._create_DV_RVs', LM + 'RepairModel_LF.convert_loss_parameter_units', 'pelicun.base.stringterpolation',
                                    'pelicun.model.demand_model._get_required_demand_type', 'pelicun.model.demand_model._assemble_required_demand_data'],
          kind='runtime', runs=150, bound='up to 4 component types, 3 stories, 4 blocks, 4 decision variables, 8 realizations', covers=['random', 'no deviation', 'other consequence', 'blocks', 'no consequence'])
def functions(S):
    n, stories = S.int('n', 1, 8), S.int('stories', 1, 3)
    a = full_assessment(Seed=S.int('rng', 1, 10 ** 6))
    C = gen.components(S, stories, S.int('types', 1, 4))
    gen.demand(S, a, stories, n)
    gen.asset(S, a, stories, n, C)
    dvs = [str(x) for x in S.rng.permutation(list(DV_UNIT))[:int(S.rng.integers(1, 5))]]
    dv_unit = {v: str(S.rng.choice(DV_UNIT[v])) for v in dvs}
    a.loss.decision_variables = tuple(dvs)
    names = {c: c if S.rng.random() < 0.5 else ('K.' + c) for c in C}
    rows = {}
    for c in C:
        k = names[c]
        S.cover('other consequence') if k != c else None
        top = gen.DEM[C[c]['demand']][2] * 1000
        for v in dvs:
            if S.rng.random() < 0.2:
                S.cover('no consequence')
                continue
            s = spec(S, 10.0, gen.DEM[C[c]['demand']][2] * 2, True)
            s['x'] = [0.0, *s['x'], top]
            s['y'] = [0.0, *s['y'], s['y'][-1]]
            rows[k, v] = s
    if not rows:
        return
    t = {}
    for (k, v), s in rows.items():
        c = C[k.removeprefix('K.')]
        t[k, v] = {('Demand', 'Type'): c['demand'], ('Demand', 'Unit'): c['unit'], ('Demand', 'Offset'): c['offset'], ('Demand', 'Directional'): c['directional'], ('DV', 'Unit'): dv_unit[v],
                   ('LossFunction', 'Theta_0'): text(s), ('LossFunction', 'Family'): s['family'], ('LossFunction', 'Theta_1'): s['disp']}
    t = pd.DataFrame.from_dict(t, orient='index')
    t.index = pd.MultiIndex.from_tuples(list(rows))
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    t = t.astype(object).where(t.notna(), np.nan)
    S.drawn.update(components=C, functions={str(k): v for k, v in rows.items()}, map=names)
    with quiet(), warnings.catch_warnings(), registries() as reg:
        warnings.simplefilter('ignore')
        a.loss.add_loss_map(pd.DataFrame({'Repair': [names[c] for c in C]}, index=list(C)))
        r = S.call(a.loss.load_model_parameters, [t])
        S.no_raise('parameters loaded', r)
        r = S.call(a.loss.calculate)
    S.no_raise('calculated', r)
    L = a.loss.lf_model.sample
    got = {tuple(map(str, c)): L[c].to_numpy(dtype=float) for c in L.columns}
    want = {}
    for g in map(tuple, a.asset.cmp_sample.columns):
        c = C[g[0]]
        qty = a.asset.cmp_sample[g].to_numpy()
        blocks = int(a.asset.cmp_marginal_params.loc[g, 'Blocks'])
        e = gen.expected_demand(a, c, g[1], g[2])
        for v in dvs:
            s = rows.get((names[g[0]], v))
            if s is None:
                continue
            f = np.interp(e, np.array(s['x']) * gen.REAL[c['unit']], np.array(s['y']) * gen.REAL[dv_unit[v]])
            if s['family']:
                S.cover('random')
                dev = []
                for b in range(blocks):
                    rv = reg.rv.get(f'{v}-{names[g[0]]}-{g[0]}-{g[1]}-{g[2]}-{g[3]}-{b}')
                    S.ensure('own deviation for every block', rv is not None, f'{v} {g} {b}')
                    if rv is None:
                        return
                    check_deviation(S, rv, s, 1.0, f'{v} {g}')
                    dev.append(rv.sample)
                dev = np.mean(dev, axis=0)
                if blocks > 1:
                    S.cover('blocks')
            else:
                S.cover('no deviation')
                dev = 1.0
            want[(v, names[g[0]], *g)] = f * qty * dev
    S.ensure('exactly the consequences of the loss functions', set(got) == set(want), f'{sorted(set(got) ^ set(want))}')
    for k, w in want.items():
        if k in got:
            S.ensure('function at the demand of the group times its quantity times deviation', bool(np.allclose(got[k], w, rtol=1e-6)), f'{k}: {got[k]} instead of {w}')


@contract('C21', 'damage consequences and loss functions', [LM + 'LossModel.calculate', LM + 'LossModel.sample', LM + 'RepairModel_DS.calculate', LM + 'RepairModel_LF.calculate', LM + 'LossModel._ensure_loss_parameter_availability'],
          kind='runtime', runs=100, bound='up to 4 component types, 2 stories, 4 decision variables, 6 realizations', covers=['both kinds in one component', 'both kinds', 'one kind', 'unavailable'])
def both(S):
    n, stories = S.int('n', 1, 6), S.int('stories', 1, 2)
    a = full_assessment(Seed=S.int('rng', 1, 10 ** 6))
    C = gen.components(S, stories, S.int('types', 1, 4))
    gen.demand(S, a, stories, n)
    gen.asset(S, a, stories, n, C)
    dvs = [str(x) for x in S.rng.permutation(list(DV_UNIT))[:int(S.rng.integers(1, 5))]]
    a.loss.decision_variables = tuple(dvs)
    ds, lf = {}, {}
    for c in C:
        for v in dvs:
            k = S.rng.random()
            if k < 0.4:
                ds[c, v] = [number(x) for x in S.rng.uniform(1, 9, C[c]['nds'])]
            elif k < 0.8:
                lf[c, v] = number(S.rng.uniform(1, 9))
            else:
                S.cover('unavailable')
    kinds = [{k[0] for k in ds}, {k[0] for k in lf}]
    S.cover('both kinds in one component' if kinds[0] & kinds[1] else 'both kinds' if kinds[0] and kinds[1] else 'one kind')
    if not ds and not lf:
        return
    tables = []
    if ds:
        t = pd.DataFrame.from_dict({k: {('Quantity', 'Unit'): '1 EA', ('DV', 'Unit'): DV_UNIT[k[1]][0], **{(f'DS{i + 1}', 'Theta_0'): x for i, x in enumerate(v)}} for k, v in ds.items()}, orient='index')
        tables.append(t)
    if lf:
        t = pd.DataFrame.from_dict({k: {('Demand', 'Type'): C[k[0]]['demand'], ('Demand', 'Unit'): C[k[0]]['unit'], ('Demand', 'Offset'): C[k[0]]['offset'], ('Demand', 'Directional'): C[k[0]]['directional'], ('DV', 'Unit'): DV_UNIT[k[1]][0],
                                        ('LossFunction', 'Theta_0'): f'0,{v}|0,1e9', ('LossFunction', 'Family'): np.nan} for k, v in lf.items()}, orient='index')
        tables.append(t)
    for t, src in zip(tables, [x for x in (ds, lf) if x]):
        t.index = pd.MultiIndex.from_tuples(list(src))
        t.columns = pd.MultiIndex.from_tuples(t.columns)
    S.drawn.update(components=C, damage={str(k): v for k, v in ds.items()}, functions={str(k): v for k, v in lf.items()})
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a.damage.load_model_parameters([gen.damage_table(C)], set(C))
        a.damage.calculate()
        a.loss.add_loss_map(None, 'fill_all')
        r = S.call(a.loss.load_model_parameters, tables if S.rng.random() < 0.5 else tables[::-1])
        S.no_raise('parameters loaded', r)
        r = S.call(a.loss.calculate)
    S.no_raise('calculated', r)
    D = a.damage.ds_model.sample
    want = {}
    for g in map(tuple, a.asset.cmp_sample.columns):
        c = C[g[0]]
        e = gen.expected_demand(a, c, g[1], g[2])
        for v in dvs:
            f = gen.REAL[DV_UNIT[v][0]]
            if (g[0], v) in lf:
                want[(v, g[0], g[0], 'N/A', *g[1:])] = a.asset.cmp_sample[g].to_numpy() * e / (1e9 * gen.REAL[c['unit']]) * lf[g[0], v] * f
            for i, x in enumerate(ds.get((g[0], v), [])):
                k = (*g, str(i + 1))
                if k in D.columns:
                    want[(v, g[0], g[0], str(i + 1), *g[1:])] = D[k].fillna(0).to_numpy() * x * f
    L = a.loss.sample
    if L is None:
        S.ensure('results', not any(np.any(w) for w in want.values()))
        return
    names = list(L.columns.names)
    order = [names.index(x) for x in ('dv', 'loss', 'dmg')] + ([names.index('ds')] if 'ds' in names else []) + [names.index(x) for x in ('loc', 'dir', 'uid')]
    got = {}
    for col in L.columns:
        k = tuple(str(col[i]) for i in order)
        k = k if 'ds' in names else (*k[:3], 'N/A', *k[3:])
        S.ensure('one column each', k not in got, f'{k}')
        got[k] = L[col].to_numpy(dtype=float)
    for k in set(got) | set(want):
        g, w = got.get(k, np.zeros(n)), want.get(k, np.zeros(n))
        S.ensure('every component has its own consequences', bool(np.allclose(g, w, rtol=1e-7, atol=1e-14)), f'{k}: {g} instead of {w}')


@contract('C21', 'unit consequence', [LM + '_prep_bounded_multilinear_median_DV', LM + '_prep_constant_median_DV'], kind='bounded', modules=[loss_model], runs=100,
          bound='symbolic: curves of 2-4 points with arbitrary increasing quantities and arbitrary consequences, arbitrary quantity; concrete: up to 8 points', covers=['below', 'above', 'between', 'constant'])
def unit_consequence(S):
    m = S.real('median')
    f = S.call(loss_model._prep_constant_median_DV, m)
    S.no_raise('constant', f)
    S.ensure('constant', S.eq(f(S.real('any')), m))
    S.cover('constant')
    k = S.case('points', [2, 3, 4] if S.symbolic else [2, 3, 5, 8])
    x = [S.real('x0')]
    for i in range(1, k):
        x.append(x[-1] + S.real(f'dx{i}', gt=0))
    y = [S.real(f'y{i}') for i in range(k)]
    q = S.real('q', scale=5)
    dt = object if S.symbolic else float
    f = S.call(loss_model._prep_bounded_multilinear_median_DV, np.array(y, dtype=dt), np.array(x, dtype=dt))
    S.no_raise('curve', f)
    r = S.call(f, np.array([q], dtype=dt))
    S.no_raise('evaluated', r)
    r = r[0]
    near = lambda v: S.eq(r, v) if S.symbolic else bool(abs(r - v) <= 1e-9 * (1 + abs(v) + max(map(abs, y))))
    if q <= x[0]:
        S.cover('below')
        S.ensure('constant below the specified quantities', near(y[0]))
    elif q >= x[-1]:
        S.cover('above')
        S.ensure('constant above the specified quantities', near(y[-1]))
    else:
        for i in range(k - 1):
            if q <= x[i + 1]:
                S.cover('between')
                S.ensure('interpolated between the specified quantities', near(y[i] + (y[i + 1] - y[i]) * (q - x[i]) / (x[i + 1] - x[i])))
                break


@contract('C21', 'all quantities', [LM + 'RepairModel_DS.calculate', LM + 'RepairModel_DS._calc_median_consequence', LM + 'RepairModel_DS._create_DV_RVs'], kind='bounded', modules=[loss_model], runs=60, max_paths=20000,
          bound='symbolic: 3 groups of one component and one of another, 2 damage states, 1 realization, arbitrary quantities, unit consequences and deviations, all four economies of scale', covers=['0', '1', '2', '3', 'random', 'certain'])
def quantities(S):
    mode = S.case('economies of scale', [0, 1, 2, 3])
    S.cover(str(mode))
    floors, states = bool(mode & 1), bool(mode & 2)
    curve = S.case('curve', [False, True])
    random = S.case('deviation', [False, True])
    S.cover('random' if random else 'certain')
    a = full_assessment(EconomiesOfScale={'AcrossFloors': floors, 'AcrossDamageStates': states})
    groups = [('A', '1', '1', '0'), ('A', '1', '2', '0'), ('A', '2', '1', '0'), ('B', '1', '1', '0')]
    if curve:
        groups = groups[1:3]
    dt = object if S.symbolic else float
    dmg = {(*g, d): S.real(f'q{i}_{d}', lo=0, scale=10) for i, g in enumerate(groups) for d in ('0', '1', '2')}
    D = pd.DataFrame(np.array([list(dmg.values())], dtype=dt), columns=pd.MultiIndex.from_tuples(list(dmg), names=['cmp', 'loc', 'dir', 'uid', 'ds'])).sort_index(axis=1)
    m = a.loss.ds_model
    m.decision_variables = ('Cost', 'Time')
    m.loss_map = pd.DataFrame({'Repair': ['A', 'K']}, index=['A', 'B'])
    m.missing = {('K', 'Time')}
    KEYS = [('A', 'Cost'), ('A', 'Time'), ('K', 'Cost'), ('B', 'Cost'), ('B', 'Time')]         # those of B are not assigned to anything
    th = {(c, v, d): S.real(f'm_{c}{v}{d}', lo=0, scale=10) for c, v in KEYS for d in ('1', '2')}
    t = pd.DataFrame.from_dict({(c, v): {(f'DS{d}', 'Theta_0'): th[c, v, d] for d in ('1', '2')} for c, v in KEYS}, orient='index')
    if curve:
        t = t.astype(object)
        t.iloc[0, 0] = '4,2|10,18'
    if random:
        t = t.astype(object)
        t['DS1', 'Family'] = ['lognormal', None, 'normal', None, 'normal']
        t['DS1', 'Theta_1'] = [0.4, np.nan, 0.3, np.nan, 0.2]
        if not curve:
            t.iloc[0, 0] = 3.0
        t.iloc[2, 0] = 5.0
        t.iloc[4, 0] = 8.0
    t.index = pd.MultiIndex.from_tuples(KEYS)
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    m.loss_params = t
    dev = {}

    def generate(self, sample_size, method):
        for k, rv in self.RV.items():
            dev[k] = S.real(f'd{len(dev)}', 0.01, 10)
            rv.sample = np.array([dev[k]], dtype=dt)

    with quiet(), warnings.catch_warnings(), swap(uq.RandomVariableRegistry, 'generate_sample', generate):
        warnings.simplefilter('ignore')
        r = S.call(m.calculate, D.copy(deep=True))
    S.no_raise('calculated', r)
    got = {tuple(c): m.sample[c].iloc[0] for c in m.sample.columns}
    want = {}
    for g in groups:
        for v in ('Cost', 'Time'):
            c = {'A': 'A', 'B': 'K'}[g[0]]
            if (c, v) == ('K', 'Time'):
                continue
            for d in ('1', '2'):
                med = th[c, v, d]
                if curve and (c, v, d) == ('A', 'Cost', '1'):
                    e = sum(q for k, q in dmg.items() if k[0] == g[0] and k[4] != '0' and (floors or k[1] == g[1]) and (states or k[4] == d))
                    med = ite(e <= 10, 4, ite(e >= 18, 2, 4 - (e - 10) / 4))
                if random and d == '1' and v == 'Cost':
                    k = '-'.join([v, g[0], d, *g[1:]])
                    S.ensure('own deviation for every group', k in dev, f'{k} {list(dev)}')
                    med = dev[k] * (med if curve and c == 'A' else 1)
                want[(v, c, g[0], d, *g[1:])] = dmg[(*g, d)] * med
    S.ensure('exactly the consequences of the damage', set(got) == set(want), f'{set(got) ^ set(want)}')
    for k, w in want.items():
        S.ensure('quantity times unit consequence', S.eq(got[k], w) if S.symbolic else bool(np.isclose(got[k], w, rtol=1e-9)), f'{k}')


def interpolation(arguments):
    """stringterpolation by its contract (evaluated in C21 'loss function text')"""
    y, x = ([float(v) for v in part.split(',')] for part in arguments.split('|'))

    def value(v):
        if v < x[0] or v > x[-1]:
            raise ValueError('outside of the interpolation domain')
        out = y[-1]
        for i in range(len(x) - 2, -1, -1):
            out = ite(v <= x[i + 1], y[i] + (y[i + 1] - y[i]) * ((v - x[i]) / (x[i + 1] - x[i])), out)
        return out

    def f(values):
        out = np.empty(len(values), dtype=object)
        for i, v in enumerate(values):
            out[i] = value(v)
        return out

    return f


@contract('C21', 'all demands', [LM + 'RepairModel_LF.calculate', LM + 'RepairModel_LF._calc_median_consequence', LM + 'RepairModel_LF._create_DV_RVs', 'pelicun.model.demand_model._get_required_demand_type',
                                 'pelicun.model.demand_model._assemble_required_demand_data', 'pelicun.model.demand_model._verify_edps_available', 'pelicun.base.invert_mapping'], kind='bounded', modules=[loss_model, demand_model], runs=60, max_paths=20000,
          bound='3 groups of two components sharing or not sharing a consequence, two decision variables, 1-2 blocks, 1-2 realizations, with and without deviation (enumerated); all demands, quantities and deviations symbolic; stringterpolation by its contract in the symbolic part',
          covers=['shared', 'own', 'random', 'certain', 'blocks', 'directional', 'non-directional', 'offset', 'outside'])
def demands(S):
    n = S.case('n', [1, 2])
    inside = S.case('domain', [True, True, False] if not S.symbolic else [True, False])
    shared = S.case('consequence', ['shared', 'own']) == 'shared'
    S.cover('shared' if shared else 'own')
    blocks = S.case('blocks', [None, 2])
    random = S.case('deviation', [None, 'lognormal'])
    S.cover('random' if random else 'certain')
    kind = S.case('demand', ['directional', 'non-directional', 'offset'])
    S.cover(kind)
    a = full_assessment()
    m = a.loss.lf_model
    m.decision_variables = ('Cost', 'Time')
    groups = [('A', '1', '1', '0'), ('A', '2', '1', '0'), ('B', '1', '2', '0')]
    name = {'A': 'K', 'B': 'K' if shared else 'B'}
    m.loss_map = pd.DataFrame({'Repair': [name['A'], name['B']]}, index=['A', 'B'])
    text_of = {('K', 'Cost'): '1,5,2|-20,4,20', ('K', 'Time'): '0,3|-20,20', ('B', 'Time'): '7,1,1|-20,0,20'}
    if shared:
        del text_of['B', 'Time']
    # a consequence of the same name as a component that is assigned another one
    unused = {('A', 'Cost'): '90,70|-20,20', ('A', 'Time'): '80,60|-20,20', **({('B', 'Cost'): '50,55|-20,20'} if shared else {})}
    every = {**unused, **text_of}
    t = {k: {('Demand', 'Type'): 'Peak Floor Acceleration', ('Demand', 'Unit'): 'g', ('Demand', 'Offset'): int(kind == 'offset'), ('Demand', 'Directional'): int(kind != 'non-directional'), ('DV', 'Unit'): 'ea', ('LossFunction', 'Theta_0'): v,
             ('LossFunction', 'Family'): random if k[1] == 'Cost' else None, ('LossFunction', 'Theta_1'): 0.4 if random and k[1] == 'Cost' else np.nan} for k, v in every.items()}
    t = pd.DataFrame.from_dict(t, orient='index')
    t.index = pd.MultiIndex.from_tuples(list(every))
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    m.loss_params = t
    dt = object if S.symbolic else float
    D = {('PFA', l, d): [S.real(f'e{l}{d}_{i}', -16, 16) for i in range(n)] for l in ('0', '1', '2', '3') for d in ('1', '2')} if kind == 'non-directional' else {
        ('PFA', l, d): [S.real(f'e{l}{d}_{i}', -16, 16) for i in range(n)] for l, d in (('1', '1'), ('2', '1'), ('1', '2'), ('3', '1'), ('2', '2'))}
    demand = pd.DataFrame({k: np.array(v, dtype=dt) for k, v in D.items()})
    demand.columns = pd.MultiIndex.from_tuples(list(D), names=['type', 'loc', 'dir'])
    Q = {g: [S.real(f'q{k}_{i}', 0, 50) for i in range(n)] for k, g in enumerate(groups)}
    qty = {g: pd.Series(np.array(v, dtype=dt)) for g, v in Q.items()}
    marg = pd.DataFrame({'Theta_0': 1.0}, index=pd.MultiIndex.from_tuples(groups, names=['cmp', 'loc', 'dir', 'uid']))
    if blocks:
        S.cover('blocks')
        marg['Blocks'] = [1, blocks, 1]
    dev = {}

    def generate(self, sample_size, method):
        for k, rv in self.RV.items():
            dev[k] = [S.real(f'd{len(dev)}_{i}', 0.01, 10) for i in range(sample_size)]
            rv.sample = np.array(dev[k], dtype=dt)

    edp = {}
    for g in groups:
        l = str(int(g[1]) + (kind == 'offset'))
        if kind == 'non-directional':
            edp[g] = [1.2 * ite(x >= y, x, y) for x, y in zip(D['PFA', l, '1'], D['PFA', l, '2'])]
        else:
            edp[g] = D['PFA', l, g[2]]
    if not inside:
        # one realization of one demand is beyond the points of the functions
        x = S.real('beyond', 24, 40)
        D['PFA', '2', '1'][-1] = x
        for g in groups:
            l = str(int(g[1]) + (kind == 'offset'))
            if kind == 'non-directional':
                edp[g] = [1.2 * ite(p >= q, p, q) for p, q in zip(D['PFA', l, '1'], D['PFA', l, '2'])]
        demand.iloc[-1, list(D).index(('PFA', '2', '1'))] = x
    keep = demand.copy(deep=True)
    with quiet(), warnings.catch_warnings(), swap(uq.RandomVariableRegistry, 'generate_sample', generate):
        warnings.simplefilter('ignore')
        if S.symbolic:
            with swap(base, 'stringterpolation', interpolation):
                r = S.call(m.calculate, demand, qty, marg, {'PFA': 0}, {'ALL': 1.2})
        else:
            r = S.call(m.calculate, demand, qty, marg, {'PFA': 0}, {'ALL': 1.2})
    if not inside:
        S.cover('outside')
        S.refused('no loss outside the function', r, 'ValueError')
        return
    S.no_raise('calculated', r)
    S.ensure('demands kept', list(demand.columns) == list(keep.columns))
    got = {tuple(c): m.sample[c].to_numpy() for c in m.sample.columns}
    want = {(v, name[g[0]], *g) for g in groups for v in ('Cost', 'Time') if (name[g[0]], v) in text_of}
    S.ensure('exactly the consequences of the loss functions', set(got) == want, f'{set(got) ^ want}')
    used = set()
    for (v, c, *g) in want:
        g = tuple(g)
        b = int(marg.loc[g, 'Blocks']) if blocks else 1
        f = interpolation(text_of[c, v])
        for i in range(n):
            y = f([edp[g][i]])[0]
            if random and v == 'Cost':
                names = ['-'.join([v, c, *g, str(k)]) for k in range(b)]
                S.ensure('own deviation for every block', all(x in dev for x in names), f'{names} {list(dev)}')
                used |= set(names)
                w = y * Q[g][i] * sum(dev[x][i] for x in names) / b
            else:
                w = y * Q[g][i]
            S.ensure('function at the demand of the group times its quantity times deviation', near(S, got[v, c, *g][i], w), f'{v} {c} {g} {i}')
    S.ensure('no other deviation', used == set(dev), f'{used ^ set(dev)}')


def near(S, a, b):
    if S.symbolic:
        return S.eq(a, b)
    return bool(np.isclose(float(a), float(b), rtol=1e-9, atol=1e-9))


@contract('C21', 'loss function text', ['pelicun.base.stringterpolation'], kind='runtime', runs=100, bound='2-4 points; whole numbers, decimals, exponents and spaces', covers=['inside', 'outside', 'at a point'])
def function_text(S):
    r = S.rng
    k = int(r.integers(2, 6))
    x = np.cumsum(r.uniform(0.1, 5, k)) - 3
    y = r.normal(size=k) * 10
    form = ['{:.6f}', '{:.5e}', ' {:.4f}', '{:g}'][int(r.integers(4))]
    tx, ty = [form.format(v) for v in x], [form.format(v) for v in y]
    x, y = [float(v) for v in tx], [float(v) for v in ty]
    s = ','.join(ty) + '|' + ','.join(tx)
    S.drawn.update(function=s)
    f = S.call(base.stringterpolation, s)
    S.no_raise('understood', f)
    g = interpolation(s)
    q = list(r.uniform(x[0], x[-1], 4)) + [x[0], x[-1], x[int(r.integers(k))]]
    S.cover('inside')
    S.cover('at a point')
    out = S.call(f, np.array(q))
    S.no_raise('evaluated', out)
    S.ensure('interpolated between the points', bool(np.allclose(np.asarray(out, dtype=float), np.asarray(g(q), dtype=float), rtol=1e-9, atol=1e-9)), f'{out} {g(q)}')
    S.cover('outside')
    S.refused('not extrapolated', S.call(f, np.array([q[0], x[-1] + 0.5])), 'ValueError')
    S.refused('not extrapolated', S.call(f, np.array([q[0], x[0] - 0.5])), 'ValueError')
