"""C14 damage calculation batches cover every performance group exactly once"""
import itertools
import numpy as np
import pandas as pd
from pelicun.model import damage_model
from pyvc.contract import contract, Raised
from contracts.util import *
from contracts import gen


def check(S, m, groups, size, missing, params):
    """groups: {(cmp, loc, dir, uid): blocks}"""
    ix = pd.MultiIndex.from_tuples(sorted(groups), names=['cmp', 'loc', 'dir', 'uid'])
    t = pd.DataFrame({'Blocks': [groups[g] for g in sorted(groups)]}, index=ix)
    snap = t.copy(deep=True)
    m.damage_params = pd.DataFrame({('LS1', 'Theta_0'): 1.0}, index=params)
    r = S.call(m._get_pg_batches, t, size, missing)
    S.no_raise('batches', r)
    note = f'{groups} batch size {size}'
    S.ensure('table of blocks kept', t.equals(snap))
    want = {g: b for g, b in groups.items() if g[0] not in missing and g[0] in params}
    got = [tuple(x) for x in r.index]
    S.ensure('every performance group in exactly one batch', sorted(x[1:] for x in got) == sorted(want), f'{note}: {got}')
    S.ensure('all blocks of every group', all(int(r.loc[x, 'Blocks']) == want[x[1:]] for x in got), note)
    ids = sorted({x[0] for x in got})
    S.ensure('batches numbered consecutively from one', ids == list(range(1, len(ids) + 1)), f'{note}: {ids}')
    for i in ids:
        mine = [want[x[1:]] for x in got if x[0] == i]
        S.ensure('batch size respected', sum(mine) <= size or len(mine) == 1, f'{note}: batch {i} {mine}')
        if len(mine) == 1 and mine[0] > size:
            S.cover('oversized group')
        if len(mine) > 1:
            S.cover('several groups')
    if len(ids) > 1:
        S.cover('several batches')


PLACES = [('A', '1', '1', '0'), ('A', '2', '1', '0'), ('B', '1', '1', '0'), ('A', '10', '1', '0')]


@contract('C14', 'small cases', ['pelicun.model.damage_model.DamageModel_Base._get_pg_batches'], kind='bounded', runs=64, max_paths=20000, bound='every assignment of 1-4 blocks to one to three groups and of 1-3 blocks to four groups, every batch size up to one more than their sum (enumerated)',
          covers=['oversized group', 'several groups', 'several batches'])
def small(S):
    m = damage_model.DamageModel_DS(base_assessment())
    k = S.case('groups', [1, 2, 3, 4])
    g = {PLACES[i]: S.case(f'blocks {i}', [1, 2, 3, 4] if k < 4 else [1, 2, 3]) for i in range(k)}
    for size in range(1, sum(g.values()) + 2):
        check(S, m, g, size, [], ['A', 'B'] if k > 2 else ['A'])


@contract('C14', 'random cases', ['pelicun.model.damage_model.DamageModel_Base._get_pg_batches'], kind='runtime', runs=250, bound='up to 25 groups of 1-40 blocks, batch sizes 1-1000',
          covers=['oversized group', 'several groups', 'several batches', 'missing components', 'other model'])
def random_(S):
    m = damage_model.DamageModel_DS(base_assessment())
    g = {}
    for _ in range(S.int('groups', 1, 25)):
        g[(str(S.rng.choice(['A', 'B', 'B.1', 'C', 'z'])), str(S.rng.integers(0, 12)), str(S.rng.integers(0, 3)), str(S.rng.integers(0, 2)))] = int(S.rng.choice([1, 1, 2, 3, 5, 17, 40]))
    S.drawn['groups'] = {str(k): v for k, v in g.items()}
    names = sorted({k[0] for k in g})
    missing, params = [], list(names)
    if len(names) > 1 and S.case('missing', [False, True]):
        missing = [names[0]]
        params.remove(names[0])
        S.cover('missing components')
    if len(params) > 1 and S.case('other', [False, True]):
        params.remove(params[-1])
        S.cover('other model')
    params = [params[i] for i in S.rng.permutation(len(params))]
    check(S, m, g, int(S.rng.choice([1, 2, 3, 4, 7, 20, 39, 100, 1000])), missing, params)


@contract('C14', 'calculation', ['pelicun.model.damage_model.DamageModel.calculate', 'pelicun.model.damage_model.DamageModel_DS.obtain_ds_sample'], kind='runtime', runs=40, bound='up to 4 component types, 3 stories, 4 blocks, 8 realizations', covers=['no blocks column', 'missing'])
def calc(S):
    """the batch size never drops or duplicates components: identical groups, quantities and deterministic damage for any batch size"""
    seed = S.int('rng', 1, 10 ** 6)
    stories, n = S.int('stories', 1, 3), S.int('n', 2, 8)
    C = gen.components(S, stories, S.int('types', 2, 4), families=(None,), weights=False)
    S.drawn['components'] = C
    nb = S.case('no blocks column', [False, True])
    miss = S.case('missing', [False, True])
    st = int(S.rng.integers(10 ** 9))
    out = []
    for size in (1000, 1, S.int('size', 2, 9)):
        a = full_assessment(Seed=seed)
        S.rng = np.random.default_rng(st)
        gen.demand(S, a, stories, n)
        gen.asset(S, a, stories, n, C, blocks=not nb)
        if nb:
            a.asset.cmp_marginal_params = a.asset.cmp_marginal_params.drop('Blocks', axis=1)
            S.cover('no blocks column')
        use = list(C)[1:] if miss else list(C)
        if miss:
            S.cover('missing')
        with quiet():
            a.damage.load_model_parameters([gen.damage_table({c: C[c] for c in use})], set(C), warn_missing=False)
            r = S.call(a.damage.calculate, None, size)
        S.no_raise('calculated', r)
        groups = [tuple(c) for c in a.asset.cmp_sample.columns if c[0] in use]
        D = a.damage.ds_model.ds_sample
        blocks = {g: 1 if nb else C[g[0]]['Blocks'] for g in groups}
        S.ensure('every block of every group once', sorted(map(tuple, D.columns)) == sorted((*g, str(b + 1)) for g in groups for b in range(blocks[g])), f'batch size {size}: {list(D.columns)}')
        out.append((D.sort_index(axis=1), a.damage.ds_model.sample.sort_index(axis=1)))
    for x, y in out[1:]:
        S.ensure('damage states do not depend on the batch size', x.equals(out[0][0]))
        S.ensure('quantities do not depend on the batch size', y.equals(out[0][1]))
