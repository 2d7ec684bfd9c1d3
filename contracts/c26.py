"""C26 first definition of a model parameter wins and incomplete ones are not used"""
import os
import warnings
import numpy as np
import pandas as pd
from pelicun import base, file_io, uq
from pelicun.model import damage_model, loss_model, pelicun_model
from pyvc.contract import contract, Raised
from contracts.util import *
from contracts import gen
from contracts.c22 import soft

DM = 'pelicun.model.damage_model.'
LM = 'pelicun.model.loss_model.'
NAMES = ['A.1', 'A.2', 'B', 'B.10', 'C', 'a.1', 'Z', 'B.1']
DEMAND = {'Peak Floor Acceleration': ['g', 'inps2', 'mps2'], 'Peak Interstory Drift Ratio': ['rad', 'unitless'], 'Peak Ground Velocity': ['inps', 'mps', 'cmps']}
DEMAND = {k: [u for u in v if u in gen.REAL] for k, v in DEMAND.items()}
DVU = {'Cost': ['USD_2011'], 'Time': ['worker_day'], 'Carbon': ['kg', 'lb'], 'Energy': ['J', 'MJ']}
DVU = {k: [u for u in v if u in gen.REAL] for k, v in DVU.items()}


def num(S, lo=0.1, hi=9):
    return float(np.round(S.rng.uniform(lo, hi), 3))


def source(S, rows, path):
    """the table itself or a file with it"""
    t = pd.DataFrame.from_dict(rows, orient='index')
    if isinstance(next(iter(rows)), tuple):
        t.index = pd.MultiIndex.from_tuples(list(rows))
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    t = t.astype(object).where(t.notna(), np.nan)
    t = t.iloc[S.rng.permutation(len(t)), S.rng.permutation(t.shape[1])]
    if S.rng.random() < .4:
        f = t.copy()
        f.columns = ['-'.join(x for x in c if x) for c in f.columns]
        f.index = ['-'.join(i) if isinstance(i, tuple) else i for i in f.index]
        f.index.name = 'ID'
        f.to_csv(path)
        return path
    return t


def first_definitions(sources, k=None):
    """k: sources loaded by an earlier call, which keeps complete definitions only"""
    out = {}
    for i, rows in enumerate(sources):
        if i == k:
            out = {c: r for c, r in out.items() if r.get(('Incomplete', ''), 0) != 1}
        for c, r in rows.items():
            out.setdefault(c, r)
    return out


def same(got, want):
    if want is None or (isinstance(want, float) and np.isnan(want)):
        return pd.isna(got)
    if isinstance(want, str):
        return got == want
    return not pd.isna(got) and bool(np.isclose(float(got), want, rtol=1e-9))


@contract('C26', 'damage parameters', [DM + 'DamageModel.load_model_parameters', DM + 'DamageModel_Base.load_model_parameters', DM + 'DamageModel_Base.drop_unused_damage_parameters', DM + 'DamageModel_Base.remove_incomplete_components',
                                       DM + 'DamageModel_Base.convert_damage_parameter_units', DM + 'DamageModel._ensure_damage_parameter_availability', DM + 'DamageModel._get_component_id_set', 'pelicun.model.pelicun_model.PelicunModel._convert_marginal_params'],
          kind='runtime', runs=250, bound='up to 4 sources of up to 6 components, 11 limit states', covers=['overlap', 'incomplete', 'missing', 'twice'])
def damage_parameters(S):
    rng = S.rng
    a = full_assessment()
    sources = []
    for _ in range(int(rng.integers(1, 5))):
        nls = int(rng.choice([1, 2, 3, 4, 6, 11]))
        flags = rng.random() < .7
        rows = {}
        for c in rng.permutation(NAMES)[:int(rng.integers(1, 7))]:
            dt = str(rng.choice(list(DEMAND)))
            r = {('Incomplete', ''): int(rng.random() < .2)} if flags else {}
            r |= {('Demand', 'Type'): dt, ('Demand', 'Unit'): str(rng.choice(DEMAND[dt])), ('Demand', 'Offset'): int(rng.integers(0, 2)), ('Demand', 'Directional'): int(rng.integers(0, 2))}
            for i in range(1, nls + 1):
                there = i == 1 or rng.random() < .7
                fam = str(rng.choice(['lognormal', 'normal'])) if there and rng.random() < .8 else None
                r[f'LS{i}', 'Family'] = fam
                r[f'LS{i}', 'Theta_0'] = num(S) if there else None
                r[f'LS{i}', 'Theta_1'] = num(S, .1, .6) if fam else None
                r[f'LS{i}', 'TruncateLower'] = num(S, .01, .1) if fam and rng.random() < .3 else None
            rows[str(c)] = r
        sources.append(rows)
    cmp_set = {str(c) for c in rng.permutation(NAMES)[:int(rng.integers(1, 7))]}
    k = int(rng.integers(1, len(sources))) if len(sources) > 1 and rng.random() < .15 else None
    with tempdir() as d, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        given = [source(S, r, os.path.join(d, f's{i}.csv')) for i, r in enumerate(sources)]
        before = [t.copy(deep=True) if isinstance(t, pd.DataFrame) else t for t in given]
        if k:
            S.cover('twice')
            r = S.call(a.damage.load_model_parameters, given[:k], cmp_set)
            S.no_raise('loaded', r)
            r = S.call(a.damage.load_model_parameters, given[k:], cmp_set)
        else:
            r = S.call(a.damage.load_model_parameters, given, cmp_set)
    S.no_raise('loaded', r)
    first = first_definitions(sources, k)
    if sum(len(s) for s in sources) > len(first):
        S.cover('overlap')
    used = {c: r for c, r in first.items() if c in cmp_set and r.get(('Incomplete', ''), 0) != 1}
    if any(r.get(('Incomplete', ''), 0) == 1 for c, r in first.items() if c in cmp_set):
        S.cover('incomplete')
    got = a.damage.ds_model.damage_params
    S.ensure('exactly the complete components of the assessment', sorted(got.index) == sorted(used), f'{sorted(got.index)} {sorted(used)}')
    for c, r in used.items():
        f = gen.REAL[r['Demand', 'Unit']]
        for col in got.columns:
            if col == ('Incomplete', ''):
                continue
            want = r.get(col)
            if want is not None and col[1] in ('Theta_0', 'TruncateLower'):
                want = want * f
            if col[0] == 'Demand' or col[1] in ('Family', 'Theta_0', 'Theta_1', 'TruncateLower'):
                S.ensure('parameters of the first definition in its own units', same(got.loc[c, col], want), f'{c} {col}: {got.loc[c, col]} {want}')
            else:
                S.ensure('nothing is invented', pd.isna(got.loc[c, col]), f'{c} {col}')
        S.ensure('no parameters are lost', all(col in got.columns for col, v in r.items() if v is not None and col not in (('Demand', 'Unit'), ('Incomplete', ''))), f'{c}')
    missing = cmp_set - set(used)
    if missing:
        S.cover('missing')
    S.ensure('components without parameters are known', sorted(a.damage.missing_components) == sorted(missing), f'{a.damage.missing_components} {missing}')
    S.ensure('the given tables stay as they are', all(x.equals(y) and x.columns.equals(y.columns) and x.index.equals(y.index) for x, y in zip(given, before) if isinstance(x, pd.DataFrame)))


@contract('C26', 'missing damage parameters are reported', [DM + 'DamageModel._ensure_damage_parameter_availability', DM + 'DamageModel.load_model_parameters'], kind='runtime', runs=30)
def reported(S):
    a = full_assessment()
    rows = {c: {('Incomplete', ''): int(S.rng.random() < .4), ('Demand', 'Type'): 'Peak Floor Acceleration', ('Demand', 'Unit'): 'g', ('Demand', 'Offset'): 0, ('Demand', 'Directional'): 1, ('LS1', 'Family'): 'lognormal', ('LS1', 'Theta_0'): 1.0, ('LS1', 'Theta_1'): .3}
            for c in NAMES if S.rng.random() < .7} or {'A.1': {('Incomplete', ''): 0, ('Demand', 'Type'): 'Peak Floor Acceleration', ('Demand', 'Unit'): 'g', ('Demand', 'Offset'): 0, ('Demand', 'Directional'): 1, ('LS1', 'Theta_0'): 1.0}}
    cmp_set = {c for c in NAMES if S.rng.random() < .6} or {'B'}
    t = pd.DataFrame.from_dict(rows, orient='index')
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    said = []
    warn = S.rng.random() < .7
    with quiet(), swap(type(a.damage.log), 'warning', lambda self, m: said.append(m)), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = S.call(a.damage.load_model_parameters, [t], cmp_set, warn_missing=warn)
    S.no_raise('loaded', r)
    missing = {c for c in cmp_set if c not in rows or rows[c]['Incomplete', ''] == 1}
    told = {c for c in NAMES if any(f"'{c}'" in m for m in said)}
    S.ensure('exactly the components without parameters are reported', told == (missing if warn else set()), f'{told} {missing} {warn}')


@contract('C26', 'loss parameters', [LM + 'LossModel.load_model_parameters', LM + 'LossModel._load_from_data_path', LM + 'RepairModel_Base.load_model_parameters', LM + 'RepairModel_Base.drop_unused_loss_parameters', LM + 'RepairModel_Base.remove_incomplete_components',
                                     LM + 'RepairModel_DS.convert_loss_parameter_units', LM + 'RepairModel_LF.convert_loss_parameter_units', LM + 'RepairModel_DS.drop_unused_damage_states', LM + 'LossModel._ensure_loss_parameter_availability', LM + 'RepairModel_Base.get_available'],
          kind='runtime', runs=300, bound='up to 4 sources of up to 10 consequences, 4 damage states', covers=['overlap', 'incomplete', 'missing', 'both kinds', 'twice'])
def loss_parameters(S):
    rng = S.rng
    dvs = [str(x) for x in rng.permutation(list(DVU))[:int(rng.integers(1, 4))]]
    a = full_assessment()
    a.loss.decision_variables = tuple(dvs)
    names = [str(x) for x in rng.permutation(NAMES)[:5]]
    sources, kinds = [], []
    for _ in range(int(rng.integers(1, 5))):
        kind = 'ds' if rng.random() < .7 else 'lf'
        nds = int(rng.integers(1, 5))
        flags = rng.random() < .7
        unit = {v: str(rng.choice(DVU[v])) for v in dvs}
        rows = {}
        for c in names:
            for v in dvs:
                if rng.random() < .45:
                    continue
                r = {('Incomplete', ''): int(rng.random() < .2)} if flags else {}
                r['DV', 'Unit'] = unit[v]
                if kind == 'ds':
                    r['Quantity', 'Unit'] = str(rng.choice(['1 EA', '1 ft2', '10 m']))
                    for i in range(1, nds + 1):
                        there = i == 1 or rng.random() < .6
                        fam = str(rng.choice(['lognormal', 'normal'])) if there and rng.random() < .6 else None
                        r[f'DS{i}', 'Family'] = fam
                        r[f'DS{i}', 'Theta_0'] = num(S) if there else None
                        r[f'DS{i}', 'Theta_1'] = num(S, .1, .6) if fam else None
                else:
                    dt = str(rng.choice(list(DEMAND)))
                    r |= {('Demand', 'Type'): dt, ('Demand', 'Unit'): str(rng.choice(DEMAND[dt])), ('Demand', 'Offset'): int(rng.integers(0, 2)), ('Demand', 'Directional'): int(rng.integers(0, 2))}
                    fam = 'lognormal' if rng.random() < .4 else None
                    r |= {('LossFunction', 'Family'): fam, ('LossFunction', 'Theta_0'): f'0.0,{num(S)}|0.0,{num(S)}', ('LossFunction', 'Theta_1'): .3 if fam else None}
                rows[c, v] = r
        if rows:
            sources.append(rows)
            kinds.append(kind)
    if not sources:
        S.stop()
    mapped = {f'x{i}': str(rng.choice(names + ['Y'])) for i in range(int(rng.integers(1, 6)))}
    with tempdir() as d, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        given = [source(S, r, os.path.join(d, f's{i}.csv')) for i, r in enumerate(sources)]
        before = [t.copy(deep=True) if isinstance(t, pd.DataFrame) else t for t in given]
        a.asset.cmp_marginal_params = pd.DataFrame({'Theta_0': 1.0}, index=pd.MultiIndex.from_tuples([(c, '1', '1', '0') for c in mapped], names=['cmp', 'loc', 'dir', 'uid']))
        a.loss.add_loss_map(pd.DataFrame({'Repair': list(mapped.values())}, index=list(mapped)))
        k = int(rng.integers(1, len(sources))) if len(sources) > 1 and rng.random() < .15 else None
        if k:
            S.cover('twice')
            S.no_raise('loaded', S.call(a.loss.load_model_parameters, given[:k]))
            r = S.call(a.loss.load_model_parameters, given[k:])
        else:
            r = S.call(a.loss.load_model_parameters, given)
    S.no_raise('loaded', r)
    first = first_definitions(sources, k)
    kind_of = {key: 'ds' if ('Quantity', 'Unit') in r else 'lf' for key, r in first.items()}
    if sum(len(s) for s in sources) > len(first):
        S.cover('overlap')
    if any(kind_of.get(key, kind) != kind for rows, kind in zip(sources, kinds) for key in rows):
        S.cover('both kinds')
    used = {key: r for key, r in first.items() if key[0] in mapped.values() and r.get(('Incomplete', ''), 0) != 1}
    if any(r.get(('Incomplete', ''), 0) == 1 for key, r in first.items() if key[0] in mapped.values()):
        S.cover('incomplete')
    for kind, m in (('ds', a.loss.ds_model), ('lf', a.loss.lf_model)):
        mine = {key: r for key, r in used.items() if kind_of[key] == kind}
        got = m.loss_params
        if got is None:
            S.ensure('exactly the complete consequences in use', not mine, f'{kind}')
            continue
        S.ensure('exactly the complete consequences in use', sorted(got.index) == sorted(mine), f'{kind} {sorted(got.index)} {sorted(mine)}')
        for key, r in mine.items():
            f = gen.REAL[r['DV', 'Unit']]
            if kind == 'ds':
                q = r['Quantity', 'Unit'].split()
                f = f / (float(q[0]) * gen.REAL[q[1] if q[1] != 'EA' else 'ea'])
            for col in got.columns:
                g, want = got.loc[key, col], r.get(col)
                if col == ('Incomplete', ''):
                    continue
                if col[0].startswith('DS') or col[0] == 'LossFunction':
                    if col[1] == 'Theta_0' and isinstance(want, str):
                        y, x = [[float(v) for v in p.split(',')] for p in want.split('|')]
                        gy, gx = [[float(v) for v in p.split(',')] for p in g.split('|')]
                        S.ensure('parameters of the first definition in its own units', np.allclose(gy, np.array(y) * f, rtol=1e-9) and np.allclose(gx, np.array(x) * gen.REAL[r['Demand', 'Unit']], rtol=1e-9), f'{key} {col}: {g} {want}')
                        continue
                    if want is not None and col[1] == 'Theta_0':
                        want = want * f
                    if col[1] not in ('Family', 'Theta_0', 'Theta_1'):
                        want = None
                S.ensure('parameters of the first definition in its own units', same(g, want), f'{key} {col}: {g} {want}')
            S.ensure('no parameters are lost', all(col in got.columns for col, v in r.items() if v is not None and col != ('Incomplete', '')), f'{key}')
    missing = {(c, v) for c in mapped.values() for v in dvs} - set(used)
    if missing:
        S.cover('missing')
    S.ensure('consequences without parameters are known', a.loss.ds_model.missing == missing and a.loss.lf_model.missing == missing, f'{a.loss.ds_model.missing} {missing}')
    S.ensure('the given tables stay as they are', all(x.equals(y) and x.columns.equals(y.columns) and x.index.equals(y.index) and x.index.names == y.index.names for x, y in zip(given, before) if isinstance(x, pd.DataFrame)))


@contract('C26', 'every overlap of damage parameters', [DM + 'DamageModel.load_model_parameters', DM + 'DamageModel_Base.load_model_parameters', DM + 'DamageModel_Base.drop_unused_damage_parameters', DM + 'DamageModel_Base.remove_incomplete_components',
                                                        DM + 'DamageModel_Base.convert_damage_parameter_units', DM + 'DamageModel._ensure_damage_parameter_availability', DM + 'DamageModel._get_component_id_set'],
          kind='bounded', modules=[damage_model, base, pelicun_model, uq, file_io], runs=60, max_paths=20000, bound='symbolic: two components in two sources with different units, each missing, complete or incomplete in each of them, used in the assessment or not; arbitrary medians',
          covers=['overlap', 'incomplete first', 'missing'])
def damage_overlaps(S):
    a = full_assessment()
    sources, med = [{}, {}], {}
    units = ['g', 'inps2']
    cmps = ['A.1', 'A.10']
    for c in cmps:
        for i in (0, 1):
            kind = S.case(f'{c} in source {i + 1}', ['missing', 'complete', 'incomplete'])
            if kind != 'missing':
                med[c, i] = S.real(f'median of {c} in {i + 1}', gt=0, scale=3)
                sources[i][c] = {('Incomplete', ''): int(kind == 'incomplete'), ('Demand', 'Type'): 'Peak Floor Acceleration', ('Demand', 'Unit'): units[i], ('Demand', 'Offset'): i, ('Demand', 'Directional'): 1,
                                 ('LS1', 'Family'): 'lognormal', ('LS1', 'Theta_0'): med[c, i], ('LS1', 'Theta_1'): [0.3, 0.5][i]}
    S.require(bool(sources[0]) or bool(sources[1]))
    if not sources[0] and not sources[1]:
        S.stop()
    cmp_set = {c for c in cmps if S.case(f'{c} used', [True, False])}
    if not cmp_set:
        S.stop()
    given = []
    for rows in sources:
        if rows:
            t = pd.DataFrame(list(rows.values()), index=list(rows), dtype=object)
            t.columns = pd.MultiIndex.from_tuples(t.columns)
            given.append(t)
    with quiet(), warnings.catch_warnings(), soft(S):
        warnings.simplefilter('ignore')
        r = S.call(a.damage.load_model_parameters, given, cmp_set)
    S.no_raise('loaded', r)
    got = a.damage.ds_model.damage_params
    first = {c: next((i for i in (0, 1) if c in sources[i]), None) for c in cmps}
    used = [c for c in cmps if c in cmp_set and first[c] is not None and not sources[first[c]][c]['Incomplete', '']]
    S.ensure('exactly the complete components of the assessment', sorted([] if got is None else got.index) == sorted(used), f'{got} {used}')
    for c in used:
        i = first[c]
        if c in sources[1 - i]:
            S.cover('overlap')
        f = S.exact(a.unit_conversion_factors[units[i]]) if False else a.unit_conversion_factors[units[i]]
        v = got.loc[c, ('LS1', 'Theta_0')]
        S.ensure('median of the first definition in its own units', S.near(v, med[c, i] * f) if S.symbolic else bool(np.isclose(float(v), med[c, i] * f, rtol=1e-9)), f'{c}')
        S.ensure('other parameters of the first definition', float(got.loc[c, ('LS1', 'Theta_1')]) == [0.3, 0.5][i] and int(got.loc[c, ('Demand', 'Offset')]) == i, f'{c}')
    missing = sorted(cmp_set - set(used))
    if missing:
        S.cover('missing')
    if any(c in cmp_set and first[c] is not None and c not in used for c in cmps):
        S.cover('incomplete first')
    S.ensure('components without parameters are known', sorted(a.damage.missing_components) == missing, f'{a.damage.missing_components} {missing}')


@contract('C26', 'every overlap of loss parameters', [LM + 'LossModel.load_model_parameters', LM + 'LossModel._load_from_data_path', LM + 'RepairModel_DS.convert_loss_parameter_units', LM + 'RepairModel_Base.drop_unused_loss_parameters', LM + 'RepairModel_Base.remove_incomplete_components', LM + 'RepairModel_Base.get_available'],
          kind='bounded', modules=[loss_model, base, pelicun_model, uq, file_io], runs=60, max_paths=20000, bound='symbolic: two consequences (of one component or of two) in two sources with different units, each missing, complete or incomplete in each of them; damage consequences or loss functions in the second source; arbitrary medians',
          covers=['overlap', 'incomplete first', 'missing', 'functions'])
def loss_overlaps(S):
    a = full_assessment()
    keys = S.case('consequences', [[('A.1', 'Carbon'), ('A.1', 'Energy')], [('A.1', 'Carbon'), ('A.10', 'Carbon')]])
    kinds = ['ds', S.case('second source', ['ds', 'lf'])]
    units = [{'Carbon': 'kg', 'Energy': 'J'}, {'Carbon': 'lb', 'Energy': 'MJ'}]
    dvs = list(dict.fromkeys(v for c, v in keys))
    sources, med = [{}, {}], {}
    for k in keys:
        for i in (0, 1):
            kind = S.case(f'{k} in source {i + 1}', ['missing', 'complete', 'incomplete'])
            if kind == 'missing':
                continue
            med[k, i] = S.real(f'median of {k} in {i + 1}', gt=0, scale=3) if kinds[i] == 'ds' else 2.5
            sources[i][k] = {('Incomplete', ''): int(kind == 'incomplete'), ('DV', 'Unit'): units[i][k[1]],
                             **({('Quantity', 'Unit'): '1 EA', ('DS1', 'Family'): 'lognormal', ('DS1', 'Theta_0'): med[k, i], ('DS1', 'Theta_1'): [0.3, 0.5][i]} if kinds[i] == 'ds' else
                                {('Demand', 'Type'): 'Peak Ground Acceleration', ('Demand', 'Unit'): 'unitless', ('Demand', 'Offset'): 0, ('Demand', 'Directional'): 0, ('LossFunction', 'Family'): None, ('LossFunction', 'Theta_0'): '0.0,2.5|0.0,1.0', ('LossFunction', 'Theta_1'): None})}
    if not sources[0] and not sources[1]:
        S.stop()
    used_names = S.case('mapped to', [['A.1', 'A.10'], ['A.10', 'Y']])
    given = []
    for rows in sources:
        if rows:
            t = pd.DataFrame(list(rows.values()), index=pd.MultiIndex.from_tuples(list(rows)), dtype=object)
            t.columns = pd.MultiIndex.from_tuples(t.columns)
            given.append(t)
    a.loss.decision_variables = tuple(dvs)
    with quiet(), warnings.catch_warnings(), soft(S):
        warnings.simplefilter('ignore')
        a.asset.cmp_marginal_params = pd.DataFrame({'Theta_0': 1.0}, index=pd.MultiIndex.from_tuples([(f'x{i}', '1', '1', '0') for i in (0, 1)], names=['cmp', 'loc', 'dir', 'uid']))
        a.loss.add_loss_map(pd.DataFrame({'Repair': used_names}, index=['x0', 'x1']))
        r = S.call(a.loss.load_model_parameters, given)
    S.no_raise('loaded', r)
    first = {k: next((i for i in (0, 1) if k in sources[i]), None) for k in keys}
    used = {k: i for k, i in first.items() if i is not None and k[0] in used_names and not sources[i][k]['Incomplete', '']}
    for kind, m in (('ds', a.loss.ds_model), ('lf', a.loss.lf_model)):
        mine = sorted(k for k, i in used.items() if kinds[i] == kind)
        got = m.loss_params
        S.ensure('exactly the complete consequences in use', (got is None and not mine) or (got is not None and sorted(map(tuple, got.index)) == mine), f'{kind} {got} {mine}')
        for k in mine:
            i = used[k]
            f = a.unit_conversion_factors[units[i][k[1]]]
            if k in sources[1 - i]:
                S.cover('overlap')
            if kind == 'ds':
                v = got.loc[k, ('DS1', 'Theta_0')]
                S.ensure('median of the first definition in its own units', S.near(v, med[k, i] * f) if S.symbolic else bool(np.isclose(float(v), med[k, i] * f, rtol=1e-9)), f'{k}')
                S.ensure('dispersion of the first definition', float(got.loc[k, ('DS1', 'Theta_1')]) == [0.3, 0.5][i], f'{k}')
            else:
                S.cover('functions')
                y = [float(x) for x in got.loc[k, ('LossFunction', 'Theta_0')].split('|')[0].split(',')]
                S.ensure('loss function of the first definition in its own units', bool(np.allclose(y, [0, 2.5 * f], rtol=1e-9)), f'{k} {y}')
    missing = {(c, v) for c in used_names for v in dvs} - set(used)
    if missing:
        S.cover('missing')
    if any(i is not None and k[0] in used_names and k not in used for k, i in first.items()):
        S.cover('incomplete first')
    S.ensure('consequences without parameters are known', set(a.loss.ds_model.missing) == missing and set(a.loss.lf_model.missing) == missing, f'{a.loss.ds_model.missing} {missing}')
