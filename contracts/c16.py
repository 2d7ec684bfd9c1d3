"""C16 damage quantities are conserved across damage states"""
import warnings
import numpy as np
import pandas as pd
from pelicun.model import damage_model
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite
from contracts.util import *
from contracts import gen


@contract('C16', 'quantities', ['pelicun.model.damage_model.DamageModel_DS.prepare_dmg_quantities'], kind='bounded', modules=[damage_model], runs=200,
          bound='symbolic: 1 realization (2 for a single block), 1-2 groups with 1-3 blocks in total, every damage state -1..2 and every quantity; concrete: up to 5 groups x 4 blocks x 8 realizations', covers=['no damage', 'damage', 'not applicable', 'dropped'])
def quantities(S):
    if S.symbolic:
        lay = S.case('layout', [[1], [2], [3], [1, 1], [1, 2]])
        n = S.case('n', [1, 2]) if sum(lay) < 2 else 1
        groups = [('a', '1', '1', '0'), ('a', '2', '1', '0')][: len(lay)] if S.case('same type', [True, False]) else [('a', '1', '1', '0'), ('b', '1', '1', '1')][: len(lay)]
    else:
        n = S.int('n', 1, 8)
        groups = sorted({(str(S.rng.choice(['a', 'b'])), str(S.rng.integers(0, 12)), str(S.rng.integers(0, 3)), str(S.rng.integers(0, 2))) for _ in range(S.int('groups', 1, 5))})
        lay = [int(S.rng.integers(1, 5)) for _ in groups]
    blocks = dict(zip(groups, lay))
    nods = ('u', '9', '1', '0')                         # a group in the asset without a damage model
    qty = {g: [S.real(f'q{i}_{r}', lo=0.0, scale=10) for r in range(n)] for i, g in enumerate([*groups, nods])}
    na = S.case('not applicable allowed', [False, True])
    vals = [0, 1, 2] if S.symbolic else [0, 0, 1, 2, 3, 11]
    ds = {}
    for i, g in enumerate(groups):
        off = [na and (S.case(f'na{i}_{r}', [False, True]) if S.symbolic else S.rng.random() < 0.3) for r in range(n)]
        for b in range(blocks[g]):
            ds[(*g, str(b + 1))] = [-1 if off[r] else (S.case(f'ds{i}_{b}_{r}', vals) if S.symbolic else int(S.rng.choice(vals))) for r in range(n)]
    if not S.symbolic:
        S.drawn['ds'] = {str(k): v for k, v in ds.items()}
    if all(v == -1 for d in ds.values() for v in d):
        return
    m = damage_model.DamageModel_DS(base_assessment())
    m.ds_sample = pd.DataFrame({c: ds[c] for c in ds}, columns=pd.MultiIndex.from_tuples(list(ds), names=['cmp', 'loc', 'dir', 'uid', 'block']))
    q = pd.DataFrame(np.array([[qty[g][r] for g in qty] for r in range(n)], dtype=object if S.symbolic else float), columns=pd.MultiIndex.from_tuples(list(qty), names=['cmp', 'loc', 'dir', 'uid']))
    mp = pd.DataFrame({'Blocks': [blocks.get(g, 1) for g in qty]}, index=pd.MultiIndex.from_tuples(list(qty)))
    mode = S.case('blocks given', ['yes', 'no column', 'none']) if all(x == 1 for x in lay) else 'yes'
    arg = mp if mode == 'yes' else (mp.rename(columns={'Blocks': 'x'}) if mode == 'no column' else None)
    drop = S.case('dropzero', [False, True])
    if drop and all(v <= 0 for d in ds.values() for v in d):
        return
    dsnap, qsnap = m.ds_sample.copy(deep=True), q.copy(deep=True)
    r = S.call(m.prepare_dmg_quantities, q, arg, dropzero=drop)
    S.no_raise('quantities are prepared', r)
    S.ensure('damage states kept', m.ds_sample.equals(dsnap))
    S.ensure('quantity table kept', all(x is y or x == y for x, y in zip(q.to_numpy().flat, qsnap.to_numpy().flat)) if not S.symbolic else q.columns.equals(qsnap.columns))
    S.ensure('one row per realization', len(r) == n)
    got = {tuple(c): r[c].tolist() for c in r.columns}
    S.ensure('columns are unique', len(got) == r.shape[1])
    S.ensure('only groups with damage states', {k[:4] for k in got} <= set(groups), f'{list(got)}')
    for g in groups:
        mine = {k[4]: v for k, v in got.items() if k[:4] == g}
        used = {str(v) for b in range(blocks[g]) for v in ds[(*g, str(b + 1))]} - {'-1'}
        if drop:
            S.cover('dropped')
        S.ensure('a column for every damage state that occurs and no other', set(mine) == (used - {'0'} if drop else used), f'{g}: {set(mine)} {used}')
        for i in range(n):
            states = [ds[(*g, str(b + 1))][i] for b in range(blocks[g])]
            x = qty[g][i]
            if states[0] == -1:
                S.ensure('not applicable realizations have no quantity', all(pd.isna(v[i]) for v in mine.values()), f'{mine}')
                S.cover('not applicable')
                continue
            tot = 0
            for d, v in mine.items():
                k = sum(1 for s in states if str(s) == d)
                if not S.symbolic or not isinstance(v[i], float) or v[i] == v[i]:
                    S.ensure('equal share of every block in the damage state', S.eq(v[i] * blocks[g], x * k), f'{g} DS{d} realization {i}: {v[i]} for {k} of {blocks[g]} blocks of {x}')
                else:
                    S.ensure('equal share of every block in the damage state', False, f'{g} DS{d}: {v[i]}')
                S.ensure('not negative', S.ge(v[i], 0.0))
                tot = tot + v[i]
                S.cover('damage' if d != '0' else 'no damage')
            if not drop:
                S.ensure('total quantity conserved', S.eq(tot, x), f'{g} realization {i}')


@contract('C16', 'all damage states', ['pelicun.model.damage_model.DamageModel_DS.complete_ds_cols'], kind='runtime', runs=80, bound='up to 4 component types, 3 stories, 12 realizations', covers=['added'])
def complete(S):
    seed = S.int('rng', 1, 10 ** 6)
    stories, n = S.int('stories', 1, 3), S.int('n', 1, 12)
    C = gen.components(S, stories, S.int('types', 1, 4))
    S.drawn['components'] = C
    a = full_assessment(Seed=seed, ListAllDamageStates=False)
    gen.demand(S, a, stories, n)
    gen.asset(S, a, stories, n, C)
    wc = S.case('weights column', [True, False]) or any(p['w'] for c in C.values() for p in c['ls'].values())
    with quiet():
        a.damage.load_model_parameters([gen.damage_table(C, weights_column=wc)], set(C))
        a.damage.calculate()
    q = a.damage.ds_model.sample
    snap = q.copy(deep=True)
    r = S.call(a.damage.ds_model.complete_ds_cols, q)
    S.no_raise('completed', r)
    S.ensure('sample kept', q.equals(snap))
    groups = [tuple(c) for c in a.asset.cmp_sample.columns]
    S.ensure('exactly all possible damage states of every group', sorted(map(tuple, r.columns)) == sorted((*g, str(d)) for g in groups for d in range(C[g[0]]['nds'] + 1)), f'{list(r.columns)}')
    for c in r.columns:
        if c in q.columns:
            S.ensure('quantities kept', bool(np.array_equal(r[c].to_numpy(dtype=float), q[c].to_numpy(dtype=float))))
        else:
            S.ensure('no invented quantities', bool((r[c].to_numpy(dtype=float) == 0).all()))
            S.cover('added')


@contract('C16', 'calculation', ['pelicun.model.damage_model.DamageModel.calculate', 'pelicun.model.damage_model.DamageModel_DS.prepare_dmg_quantities'], kind='runtime', runs=80, bound='up to 4 component types, 3 stories, 4 blocks, 15 realizations', covers=['all states', 'process'])
def calculation(S):
    seed = S.int('rng', 1, 10 ** 6)
    stories, n = S.int('stories', 1, 3), S.int('n', 2, 15)
    C = gen.components(S, stories, S.int('types', 1, 4))
    S.drawn['components'] = C
    lad = S.case('all states', [False, True])
    a = full_assessment(Seed=seed, ListAllDamageStates=lad)
    gen.demand(S, a, stories, n)
    gen.asset(S, a, stories, n, C)
    ids = list(C)
    proc = None
    if len(ids) > 1 and S.case('process', [False, True]):
        proc = {f'1_{ids[0]}': {'DS1': f'{ids[1]}_NA'}}
        S.cover('process')
    if lad:
        S.cover('all states')
    use = ids[:-1] if len(ids) > 1 and S.case('undamageable', [False, True]) and proc is None else ids
    with quiet():
        a.damage.load_model_parameters([gen.damage_table({c: C[c] for c in use})], set(C), warn_missing=False)
        cs = a.asset.cmp_sample.copy(deep=True)
        r = S.call(a.damage.calculate, proc, S.int('batch', 1, 20))
    S.no_raise('calculated', r)
    S.ensure('asset sample kept', a.asset.cmp_sample.equals(cs))
    q = a.damage.ds_model.sample
    D = a.damage.ds_model.ds_sample
    groups = [tuple(c) for c in cs.columns if c[0] in use]
    S.ensure('groups without damage model do not appear', {tuple(c[:4]) for c in q.columns} <= set(groups))
    for g in groups:
        mine = q[[c for c in q.columns if tuple(c[:4]) == g]]
        na = (D[g] == -1).any(axis=1).to_numpy()
        tot = mine.to_numpy(dtype=float).sum(axis=1)
        if not na.all():
            S.ensure('total quantity conserved', bool(np.allclose(tot[~na], cs[g].to_numpy()[~na], rtol=1e-9)), f'{g}: {tot} {cs[g].to_numpy()}')
        v = mine.to_numpy(dtype=float)
        S.ensure('no negative quantities', bool(np.all(v[~np.isnan(v)] >= 0)))
        for c in mine.columns:
            k = (D[g] == int(c[4])).sum(axis=1).to_numpy()
            S.ensure('share of the blocks in the damage state', bool(np.allclose(mine[c].to_numpy(dtype=float)[~na], (cs[g].to_numpy() * k / C[g[0]]['Blocks'])[~na], rtol=1e-9, atol=1e-12)))


@contract('C16', 'probabilities', ['pelicun.model.damage_model.DamageModel_DS.probabilities'], kind='runtime', runs=150, bound='up to 8 blocks, 20 realizations, damage states up to 11', covers=['not applicable', 'never applicable', 'undamaged'])
def probabilities(S):
    n = S.int('n', 1, 20)
    cols = [(c, l, '1', u, b) for c in ('a', 'b.1') for l in ('1', '10') for u in ('0', '1') for b in ('1', '2')]
    cols = [cols[i] for i in S.rng.permutation(len(cols))[:S.int('blocks', 1, 8)]]
    vals = [int(x) for x in S.rng.permutation([-1, 0, 1, 2, 3, 10, 11])[:S.int('states', 1, 5)]]
    ds = {c: [int(x) for x in S.rng.choice(vals, n)] for c in cols}
    S.drawn['ds'] = {str(k): v for k, v in ds.items()}
    m = damage_model.DamageModel_DS(base_assessment())
    m.ds_sample = pd.DataFrame(ds)
    m.ds_sample.columns = pd.MultiIndex.from_tuples(cols, names=['cmp', 'loc', 'dir', 'uid', 'block'])
    snap = m.ds_sample.copy(deep=True)
    r = S.call(m.probabilities)
    S.no_raise('probabilities are given', r)
    S.ensure('damage states kept', m.ds_sample.equals(snap))
    S.ensure('one row for each block', sorted(map(tuple, r.index)) == sorted(cols) and r.index.is_unique)
    for c in cols:
        used = [v for v in ds[c] if v != -1]
        if len(used) < n:
            S.cover('not applicable')
        if not used:
            S.cover('never applicable')
            S.ensure('unknown without applicable realizations', bool(r.loc[c].isna().all()), f'{c} {r.loc[c].to_dict()}')
            continue
        if 0 in used:
            S.cover('undamaged')
        got = {int(k): float(v) for k, v in r.loc[c].items() if pd.notna(v) and v != 0}
        want = {k: used.count(k) / len(used) for k in set(used)}
        S.ensure('share of the applicable realizations in the damage state', set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-12 for k in got), f'{c} {got} {want}')


STATES = [('LS1',), ('LS1', 'LS2'), ('LS1', 'LS2', 'LS10'), ('LS2',)]


@contract('C16', 'all damage states of every layout', ['pelicun.model.damage_model.DamageModel_DS.complete_ds_cols'], kind='bounded', modules=[damage_model], runs=80,
          bound='two component types with four sets of limit states each, one of them with two or three alternative damage states; up to 3 groups in two orders and any of four sets of listed damage states, one realization (enumerated); all quantities symbolic', covers=['added', 'alternatives', 'not in the sample', 'nothing added'])
def complete_all(S):
    first, second = S.case('first', STATES), S.case('second', [*STATES, None])
    alternatives = S.case('alternatives', [1, 2, 3])
    per = {'a.1': first, **({'a.10': second} if second else {})}
    header = pd.MultiIndex.from_tuples([('Demand', 'Type')] + [(l, k) for l in ('LS1', 'LS10', 'LS2') for k in ('Family', 'Theta_0', 'DamageStateWeights')])
    data = np.empty((2, len(header)), dtype=object)
    data[:] = np.nan
    count = {}
    for i, c in enumerate(('a.1', 'a.10')):
        ls = per.get(c, ('LS1',))
        for l in ls:
            data[i, header.get_loc((l, 'Theta_0'))] = 1.0
            if l == 'LS2' and alternatives > 1:
                S.cover('alternatives')
                data[i, header.get_loc((l, 'DamageStateWeights'))] = ' | '.join([str(1 / alternatives)] * alternatives)
        count[c] = sum(alternatives if l == 'LS2' else 1 for l in ls)
    params = pd.DataFrame(data, index=['a.1', 'a.10'], columns=header)
    if second is None:
        S.cover('not in the sample')
    groups = [(c, *x) for c in per for x in ([('1', '1', '0'), ('2', '1', '0')] if c == 'a.1' else [('1', '2', '1')])]
    listed = S.case('listed', ['first', 'last', 'all', 'ends'])
    cols = []
    for g in groups:
        every = list(range(count[g[0]] + 1))
        cols += [(*g, str(d)) for d in {'first': every[:1], 'last': every[-1:], 'all': every, 'ends': sorted({0, every[-1]})}[listed]]
    if S.case('order', ['sorted', 'reversed']) == 'reversed':
        cols = cols[::-1]
    v = [S.real(f'q{i}', 0, 1e6) for i in range(len(cols))]
    arr = np.empty((1, len(cols)), dtype=object)
    for j, x in enumerate(v):
        arr[0, j] = x
    q = pd.DataFrame(arr if S.symbolic else arr.astype(float), columns=pd.MultiIndex.from_tuples(cols, names=['cmp', 'loc', 'dir', 'uid', 'ds']))
    keep = q.copy(deep=True)
    m = full_assessment().damage.ds_model
    m.damage_params = params
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = S.call(m.complete_ds_cols, q)
    S.no_raise('completed', r)
    S.ensure('sample kept', list(q.columns) == list(keep.columns) and all(q.iloc[0, j] is keep.iloc[0, j] or not S.symbolic and q.iloc[0, j] == keep.iloc[0, j] for j in range(len(cols))))
    want = sorted((*g, str(d)) for g in groups for d in range(count[g[0]] + 1))
    S.ensure('exactly all possible damage states of every group', sorted(map(tuple, r.columns)) == want, f'{list(r.columns)} {want}')
    S.cover('nothing added' if len(want) == len(cols) else 'added')
    at = {tuple(c): j for j, c in enumerate(r.columns)}
    for c in want:
        x = r.iloc[0, at[c]]
        S.ensure('quantities kept, and no invented ones', S.exact(x, v[cols.index(c)]) if c in cols else S.exact(x, 0), f'{c} {x}')
