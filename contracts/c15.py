"""C15 components get the damage state of the highest limit state exceeded"""
import warnings
import numpy as np
import pandas as pd
from pelicun import base, uq
from pelicun.model import damage_model, demand_model
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite
from contracts.util import *
from contracts import gen


def ds_model():
    return damage_model.DamageModel_DS(base_assessment())


SHAPES = [  # per component type: the limit states it has
    {'a': ['1']}, {'a': ['1', '2']}, {'a': ['1', '2', '3']}, {'a': ['1', '3'], 'b': ['1', '2', '3']}, {'a': ['2', '3'], 'b': ['1', '2']}, {'a': ['1', '2'], 'b': ['1']},
    {'b': ['1', '2'], 'c': ['2', '10']}, {'a': ['9', '10', '11']}]


@contract('C15', 'evaluation', ['pelicun.model.damage_model.DamageModel_DS._evaluate_damage_state'], kind='bounded', modules=[damage_model], runs=150,
          bound='symbolic: 1 realization, one or two component types with up to 5 limit states in total (8 limit state layouts), every capacity and demand value; concrete: up to 6 groups x 3 blocks x 4 limit states x 8 realizations', covers=['undamaged', 'damaged', 'shared demand', 'own demand'])
def evaluate(S):
    if S.symbolic:
        shape = S.case('layout', SHAPES)
        n = 1
        pgs = [(c, '1', '1', '0') for c in shape]
        nb = {p: 1 for p in pgs}
        ls = {p: shape[p[0]] for p in pgs}
        if len(pgs) == 1 and len(ls[pgs[0]]) == 1:
            nb[pgs[0]] = 2
    else:
        n = S.int('n', 1, 8)
        pgs, nb, ls, types = [], {}, {}, {}
        for _ in range(S.int('groups', 1, 6)):
            p = (str(S.rng.choice(['a', 'b', 'c'])), str(S.rng.integers(0, 12)), str(S.rng.integers(0, 3)), str(S.rng.integers(0, 2)))
            if p in pgs:
                continue
            pgs.append(p)
            nb[p] = int(S.rng.integers(1, 4))
            if p[0] not in types:
                types[p[0]] = sorted(S.rng.permutation([1, 2, 3, 4, 10])[: S.rng.integers(1, 5)])
            ls[p] = [str(x) for x in types[p[0]]]
        pgs.sort()
    cols = [(*p, str(b + 1), l) for p in pgs for b in range(nb[p]) for l in ls[p]]
    cap = {c: [S.real(f'cap{i}_{r}', scale=10) for r in range(n)] for i, c in enumerate(cols)}
    share = S.case('demands', ['shared', 'own']) if len(pgs) > 1 else 'own'
    S.cover('shared demand' if share == 'shared' else 'own demand')
    dem = {p: [S.real(f'dem{0 if share == "shared" else i}_{r}', scale=10) if share == 'own' or i == 0 else None for r in range(n)] for i, p in enumerate(pgs)}
    if share == 'shared':
        dem = {p: dem[pgs[0]] for p in pgs}
    # the damage state picked for each limit state (several alternatives possible)
    lsds = {}
    for p in pgs:
        for b in range(nb[p]):
            k = 1
            for l in ls[p]:
                alt = 2 if l in ('2', '10') else 1
                lsds[(*p, str(b + 1), l)] = [k + (0 if alt == 1 else int(S.case(f'alt{"".join(p)}{b}{l}{r}', [0, 1]) if S.symbolic else S.rng.integers(2))) for r in range(n)]
                k += alt
    mk = lambda d, dt: pd.DataFrame(np.array([[d[c][r] for c in sorted(d)] for r in range(n)], dtype=dt), columns=pd.MultiIndex.from_tuples(sorted(d), names=['cmp', 'loc', 'dir', 'uid', 'block', 'ls']))
    C, L = mk(cap, object if S.symbolic else float), mk(lsds, int)
    dd, req = {}, {}
    for i, p in enumerate(pgs):
        key = ('EDP-%d' % (0 if share == 'shared' else i), None)
        dd[key] = np.array(dem[p], dtype=object if S.symbolic else float)
        req.setdefault(key, []).append(p)
    csnap, lsnap = C.copy(deep=True), L.copy(deep=True)
    r = S.call(ds_model()._evaluate_damage_state, dd, req, C, L)
    S.no_raise('damage states are evaluated', r)
    S.ensure('one column per block', [tuple(c) for c in r.columns] == [(*p, str(b + 1)) for p in pgs for b in range(nb[p])], f'{list(r.columns)}')
    S.ensure('every realization', len(r) == n)
    S.ensure('samples kept', L.equals(lsnap) and C.columns.equals(csnap.columns))
    for p in pgs:
        for b in range(nb[p]):
            got = r[(*p, str(b + 1))].tolist()
            for q in range(n):
                want = 0
                for l in ls[p]:                       # ascending: the highest exceeded limit state decides
                    c = (*p, str(b + 1), l)
                    want = ite(dem[p][q] > cap[c][q], lsds[c][q], want)
                S.ensure('damage state of the highest exceeded limit state', want == int(got[q]), f'{p} block {b + 1} realization {q}: {got[q]}')
                S.cover('undamaged' if int(got[q]) == 0 else 'damaged')


def build(S, **k):
    a = full_assessment(**({'Seed': S.int('rng', 1, 10 ** 6)}))
    stories = S.int('stories', 1, 3)
    n = S.int('n', 2, 15)
    C = gen.components(S, stories, S.int('types', 1, 4), **k)
    S.drawn['components'] = C
    gen.demand(S, a, stories, n)
    gen.asset(S, a, stories, n, C)
    return a, stories, n, C


@contract('C15', 'damage calculation', ['pelicun.model.damage_model.DamageModel.calculate', 'pelicun.model.damage_model.DamageModel_DS.obtain_ds_sample', 'pelicun.model.damage_model.DamageModel_DS._generate_dmg_sample',
                                        'pelicun.model.damage_model.DamageModel_DS._create_dmg_RVs', 'pelicun.model.damage_model.DamageModel_DS._evaluate_damage_state', 'pelicun.model.damage_model.DamageModel.load_model_parameters'],
          kind='runtime', bound='up to 4 component types, 4 limit states, 3 stories, 4 blocks, 15 realizations', runs=80, covers=['gap', 'weights', 'damaged', 'several limit states'])
def calculation(S):
    a, stories, n, C = build(S, families=('lognormal', 'normal', None, 'normal_std', 'multilinear_CDF'))
    order = S.case('columns', ['as is', 'shuffled'])
    t = gen.damage_table(C)
    if order == 'shuffled':
        t = t.iloc[:, S.rng.permutation(t.shape[1])]
    with gen.record() as rec, quiet():
        r = S.call(a.damage.load_model_parameters, [t], set(C))
        S.no_raise('parameters loaded', r)
        r = S.call(a.damage.calculate, None, S.int('batch', 1, 12))
    S.no_raise('calculated', r)
    D = a.damage.ds_model.ds_sample
    groups = [tuple(c) for c in a.asset.cmp_sample.columns]
    blocks = a.asset.cmp_marginal_params['Blocks']
    S.ensure('one column per block', sorted(map(tuple, D.columns)) == sorted((*g, str(b + 1)) for g in groups for b in range(int(blocks[g]))), f'{list(D.columns)}')
    for g in groups:
        c = C[g[0]]
        first = gen.first_ds(c)
        e = gen.expected_demand(a, c, g[1], g[2])
        if 0 < len(c['ls']) < max(c['ls']):
            S.cover('gap')
        for b in range(int(blocks[g])):
            mine = {k[5]: v for k, v in rec.cap.items() if k[:5] == (*g, str(b + 1))}
            S.ensure('capacities of exactly the defined limit states', set(mine) == {str(i) for i in c['ls']}, f'{g} {set(mine)}')
            want = np.zeros(n, dtype=int)
            for i in sorted(c['ls']):
                w = c['ls'][i]['w']
                pick = rec.lsds[(*g, str(b + 1), str(i))]
                S.ensure('damage states numbered consecutively through the limit states', bool(np.all((pick >= first[i]) & (pick < first[i] + len(w or [1])))), f'{g} LS{i}: {set(pick)} first {first[i]}')
                if w:
                    S.cover('weights')
                want = np.where(e > mine[str(i)], pick, want)
                if c['ls'][i]['Family'] is None:
                    S.ensure('deterministic capacity in base units', bool(np.allclose(mine[str(i)], c['ls'][i]['Theta_0'] * gen.REAL[c['unit']], rtol=1e-9)))
            got = D[(*g, str(b + 1))].to_numpy()
            S.ensure('damage state of the highest exceeded limit state', bool(np.array_equal(got, want)), f'{g} block {b + 1}: {got} instead of {want}')
            if (got > 0).any():
                S.cover('damaged')
        # levels of the capacities: one for all limit states of a block, another for every other block
        levels = []
        for b in range(int(blocks[g])):
            per_ls = [level(c['ls'][i], c['unit'], rec.cap[(*g, str(b + 1), str(i))]) for i in sorted(c['ls']) if c['ls'][i]['Family']]
            for u in per_ls[1:]:
                S.ensure('limit states of one block are sampled at the same level', bool(np.allclose(u, per_ls[0], rtol=1e-6, atol=1e-9)), f'{g} block {b + 1}')
                S.cover('several limit states')
            levels += [per_ls[0]] if per_ls else []
        for i, u in enumerate(levels):
            S.ensure('blocks are sampled at their own levels', not any(np.allclose(u, v, rtol=1e-6, atol=1e-9) for v in levels[:i]), f'{g}')


def level(p, unit, x):
    from scipy.stats import norm
    f = gen.REAL[unit]
    if p['Family'] == 'multilinear_CDF':
        v, q = (np.array(y.split(','), dtype=float) for y in p['Theta_0'].split('|'))
        return np.interp(x, v * f, q)
    t0, t1 = p['Theta_0'] * f, p['Theta_1']
    if p['Family'] == 'lognormal':
        return norm.cdf(np.log(x / t0) / t1)
    if p['Family'] == 'normal':
        return norm.cdf((x - t0) / (t0 * t1))
    return norm.cdf((x - t0) / (t1 * f))


@contract('C15', 'every demand, capacity and quantity', ['pelicun.model.damage_model.DamageModel.calculate', 'pelicun.model.damage_model.DamageModel_DS.obtain_ds_sample', 'pelicun.model.damage_model.DamageModel_DS._generate_dmg_sample', 'pelicun.model.damage_model.DamageModel_DS._create_dmg_RVs',
                                                         'pelicun.model.damage_model.DamageModel_DS._evaluate_damage_state', 'pelicun.model.damage_model.DamageModel_DS.prepare_dmg_quantities', 'pelicun.model.damage_model.DamageModel_Base._get_pg_batches',
                                                         'pelicun.model.demand_model._get_required_demand_type', 'pelicun.model.demand_model._assemble_required_demand_data'],
          kind='bounded', modules=[damage_model, demand_model, uq], runs=60, max_paths=60000, bound='two groups (concrete: up to three) of one or two components with one or two limit states, one of them with alternative damage states, 1-2 blocks (concrete: up to 3), different batch sizes, one realization, directional or not (enumerated); all demands, capacities and quantities symbolic',
          covers=['damaged', 'undamaged', 'directional', 'non-directional', 'missing limit state'])
def chain(S):
    directional = S.case('directional', [True, False])
    S.cover('directional' if directional else 'non-directional')
    second = S.case('limit states of B', [True, False])
    pick = S.case('alternative', [0, 1]) if directional else 1
    groups, nb, batch = S.case('layout', [(('A1', 'B2'), (2, 1), 1), (('A1', 'B2'), (1, 1), 100), (('A1', 'A10'), (1, 1), 1), (('A1', 'A10'), (1, 1), 2)] + ([] if S.symbolic else [(('A1', 'A10', 'B2'), (3, 1, 2), 4), (('A1', 'A10', 'B2'), (2, 2, 1), 3)]))
    groups = [(g[0], g[1:], '1', '0') for g in groups]
    nb = dict(zip(groups, nb))
    a = full_assessment()
    dt = object if S.symbolic else float
    mi = lambda d, names: pd.DataFrame(np.array([list(d.values())], dtype=dt), columns=pd.MultiIndex.from_tuples(list(d), names=names))
    D = {('PFA', l, d): S.real(f'e{l}{d}', 0.1, 30) for l in ('0', '1', '9') for d in (('1',) if directional else ('1', '2'))}
    a.demand.sample = mi(D, ['type', 'loc', 'dir'])
    Q = {g: S.real(f'q{i}', 0, 30) for i, g in enumerate(groups)}
    a.asset.cmp_sample = mi(Q, ['cmp', 'loc', 'dir', 'uid'])
    a.asset.cmp_marginal_params = pd.DataFrame({'Theta_0': 1.0, 'Blocks': [nb[g] for g in groups]}, index=a.asset.cmp_sample.columns)
    row = {('Demand', 'Type'): 'Peak Floor Acceleration', ('Demand', 'Unit'): 'g', ('Demand', 'Offset'): 0, ('Demand', 'Directional'): int(directional)}
    rows = {}
    for c in sorted({g[0] for g in groups}):
        rows[c] = {**row, ('LS1', 'Family'): 'lognormal', ('LS1', 'Theta_0'): 2.0, ('LS1', 'Theta_1'): 0.4, ('LS1', 'DamageStateWeights'): '0.25 | 0.75' if c == 'A' else None}
        for k, v in (('Family', 'normal'), ('Theta_0', 5.0), ('Theta_1', 0.3), ('DamageStateWeights', None)):
            rows[c]['LS2', k] = v if c == 'A' or second else (None if isinstance(v, str) else np.nan)
    if not second:
        S.cover('missing limit state')
    t = pd.DataFrame.from_dict(rows, orient='index')
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    a.damage.ds_model.damage_params = t.astype(object)
    a.damage.missing_components = []
    cap = {}

    def generate(self, sample_size, method):
        for k, rv in self.RV.items():
            if k.startswith('LSDS'):
                # the only uncertain one: which of the two alternatives of LS1
                rv.sample = np.array([pick if k.startswith('LSDS-A-') and k.endswith('-1') else rv.theta[0]], dtype=dt)
            else:
                cap[k] = S.real(f'c{len(cap)}', 0.1, 30)
                rv.sample = np.array([cap[k]], dtype=dt)

    with quiet(), warnings.catch_warnings(), swap(uq.RandomVariableRegistry, 'generate_sample', generate):
        warnings.simplefilter('ignore')
        r = S.call(a.damage.calculate, None, batch)
    S.no_raise('calculated', r)
    got = {tuple(c): a.damage.ds_model.sample[c].iloc[0] for c in a.damage.ds_model.sample.columns}
    want = {}
    names = set()
    for g in groups:
        at = str(int(g[1]) - 1)          # accelerations are those of the floor below
        if directional:
            e = D['PFA', at, g[2]]
        else:
            p, q = D['PFA', at, '1'], D['PFA', at, '2']
            e = 1.2 * ite(p >= q, p, q)
        for b in range(nb[g]):
            state = 0
            for ls, ds in (('1', 1 + pick if g[0] == 'A' else 1), ('2', 3 if g[0] == 'A' else 2)):
                if g[0] == 'B' and ls == '2' and not second:
                    continue
                k = '-'.join(['FRG', *g, str(b + 1), ls])
                names.add(k)
                S.ensure('a capacity for every limit state of every block', k in cap, f'{k} {list(cap)}')
                if e > cap[k]:
                    state = ds
            S.cover('damaged' if state else 'undamaged')
            want[*g, str(state)] = want.get((*g, str(state)), 0) + Q[g] / nb[g]
    S.ensure('a capacity for every limit state of every block', names == set(cap), f'{names ^ set(cap)}')
    for k, v in got.items():
        S.ensure('the quantity of the blocks in each damage state', close(S, v, want.get(k, 0)), f'{k}')
    S.ensure('the quantity of the blocks in each damage state', set(want) <= set(got), f'{set(want) - set(got)}')


def close(S, a, b):
    return S.eq(a, b) if S.symbolic else bool(np.isclose(float(a), float(b), rtol=1e-9, atol=1e-9))
