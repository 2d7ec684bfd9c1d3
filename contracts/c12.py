"""C12 saving and loading results in any units preserves the physical values"""
import warnings
import os
from pathlib import Path
import numpy as np
import pandas as pd
from pelicun import base, file_io
from pyvc.contract import contract, Raised
from contracts.util import *
from contracts.c11 import frame, cells_of, same_data, labels

UNITS = ['u1', 'u2', 'u3']
REAL = {u: f for c in base.parse_units(preserve_categories=True).values() for u, f in c.items()}


def pick_units(S, n, names):
    """a unit, or none, for every label; at least one unit so that the table has a units entry"""
    us = [S.case(f'unit{i}', [*names, None]) for i in range(n)]
    return us


@contract('C12', 'save and load, units per column', ['pelicun.file_io.save_to_csv', 'pelicun.file_io.load_data'], kind='bounded', modules=[file_io],
          bound='symbolic: tables of 1-2 rows and 1-3 columns with headers of 1-3 levels, every value and every positive unit factor, any assignment of three units to columns; concrete: up to 5x6',
          runs=150, covers=['scaled', 'plain', 'extra unit', 'simple'])
def columns(S):
    lv = S.size('levels', 1, 4, sym=(1, 3))
    nr, nc = S.size('rows', 1, 5, sym=(1, 2)), S.size('columns', 1, 6, sym=(1, 3))
    if S.symbolic and lv == 2 and nc == 3 and nr == 2:
        return
    simple = S.case('simpleindex', [True, False])
    L = labels(S, nc, lv)
    L = [x for x in L if 'nan' not in x and not any('-' in w for w in ([x] if lv == 1 else x))]
    nc = len(L)
    if not nc:
        return
    names = UNITS[:2] if S.symbolic else UNITS
    us = pick_units(S, nc, names)
    F = {u: S.real('f_' + u, gt=0.0, scale=3) for u in UNITS}
    ix = pd.Index(L) if lv == 1 else pd.MultiIndex.from_tuples(L)
    df = frame(S, nr, nc, columns=ix)
    order = S.case('units order', ['same', 'reversed'])
    pos = list(range(nc))[::-1 if order == 'reversed' else 1]
    units = pd.Series([us[j] for j in pos], index=ix[pos], name='Units', dtype=object)
    extra = S.case('units for other labels', [False, True])
    if extra:
        more = pd.Series(['u3'], index=pd.Index(['zz']) if lv == 1 else pd.MultiIndex.from_tuples([('zz',) * lv]), name='Units')
        units = pd.concat([more, units])
        S.cover('extra unit')
    snap = df.copy(deep=True)
    usnap = units.copy(deep=True)
    fsnap = dict(F)
    r = S.call(file_io.save_to_csv, df, None, units, F, 0, use_simpleindex=simple)
    S.no_raise('every table is saved', r)
    same_data(S, 'the table in memory is kept', df, snap)
    S.ensure('the header in memory is kept', df.columns.equals(snap.columns) and df.index.equals(snap.index))
    S.ensure('the units in memory are kept', units.index.equals(usnap.index) and all(a is b or a == b for a, b in zip(units, usnap)))
    S.ensure('the factors are kept', list(F) == list(fsnap) and all(F[k] is fsnap[k] or F[k] == fsnap[k] for k in F))
    key = {j: ('-'.join(L[j]) if simple and lv > 1 else L[j]) for j in range(nc)}
    if simple:
        S.cover('simple')
    S.ensure('same columns', sorted(map(str, r.columns)) == sorted(str(key[j]) for j in range(nc)), f'{list(r.columns)}')
    S.ensure('one units row before the data', list(map(str, r.index))[0] == 'Units' and len(r) == nr + 1)
    for j in range(nc):
        col = r[key[j]].tolist()
        u = us[j]
        S.ensure('unit written', (col[0] == u) if u is not None else pd.isna(col[0]), f'{col[0]} {u}')
        for i in range(nr):
            x = snap.iloc[i, j]
            if u is None:
                S.ensure('columns without a unit are written unchanged', S.exact(x, col[1 + i]))
                S.cover('plain')
            else:
                S.ensure('value divided by the factor of its own unit', S.eq(col[1 + i] * F[u], x))
                S.cover('scaled')
    if all(u is None for u in us):
        return
    rs = r.copy(deep=True)
    b = S.call(file_io.load_data, r, F, return_units=True)
    S.no_raise('every saved table is loaded', b)
    data, un = b
    S.ensure('the source table is kept', r.columns.equals(rs.columns) and r.index.equals(rs.index))
    S.ensure('labels restored', sorted(map(str, data.columns)) == sorted(map(str, L)), f'{list(data.columns)} {L}')
    S.ensure('row count', len(data) == nr)
    S.ensure('units reported', {k: v for k, v in un.items()} == {L[j]: us[j] for j in range(nc) if us[j] is not None}, f'{un.to_dict()}')
    for j in range(nc):
        col = data[L[j]].tolist()
        for i in range(nr):
            S.ensure('physical values restored', S.eq(snap.iloc[i, j], col[i]) if us[j] is not None else S.near(snap.iloc[i, j], col[i], 1e-12) if not S.symbolic else S.eq(snap.iloc[i, j], col[i]))
    G = {u: S.real('g_' + u, gt=0.0, scale=3) for u in UNITS}
    b = S.call(file_io.load_data, r, G)
    S.no_raise('loaded with other factors', b)
    for j in range(nc):
        for i in range(nr):
            x = r[key[j]].tolist()[1 + i]
            S.ensure('loaded value times the factor of its unit', S.eq(b[L[j]].tolist()[i], x * G[us[j]] if us[j] is not None else x))
    b = S.call(file_io.load_data, r, None)
    S.no_raise('loaded without conversion', b)
    for j in range(nc):
        for i in range(nr):
            S.ensure('no factors, no conversion', S.near(b[L[j]].tolist()[i], r[key[j]].tolist()[1 + i]))


@contract('C12', 'save and load, units per row', ['pelicun.file_io.save_to_csv', 'pelicun.file_io.load_data'], kind='runtime', bound='up to 5x4, 1-3 level labels, mixed column types', runs=200,
          covers=['text column', 'integer column', 'file'])
def rows(S):
    lv = S.int('levels', 1, 3)
    nr = S.int('rows', 1, 5)
    L = [x for x in labels(S, nr, lv) if 'nan' not in x]
    nr = len(L)
    if not nr:
        return
    us = [str(S.rng.choice(list(REAL))) for _ in L]
    ix = pd.Index(L, dtype=object) if lv == 1 else pd.MultiIndex.from_tuples(L)
    df = pd.DataFrame({'a': S.rng.normal(size=nr), 'n': S.rng.integers(-9, 9, nr), 't': S.rng.choice(['x', 'yy'], nr), 'z': S.rng.random(nr)}, index=ix)
    if S.case('with missing', [False, True]):
        df.loc[df.index[0], 'z'] = np.nan
    S.drawn['units'] = us
    S.drawn['labels'] = L
    units = pd.Series(us, index=ix, name='Units')
    if S.case('units order', ['same', 'shuffled']) == 'shuffled':
        units = units.iloc[S.rng.permutation(nr)]
    snap = df.copy(deep=True)
    with tempdir() as d:
        f = None
        if S.case('file', [True, False]):
            f = Path(d) / 't.csv'
            S.cover('file')
        r = S.call(file_io.save_to_csv, df, f, units, REAL, 1, use_simpleindex=True)
        S.no_raise('saved', r)
        S.ensure('table in memory kept', df.equals(snap))
        if f is None:
            src = r
            for k in range(nr):
                key = '-'.join(L[k]) if lv > 1 else L[k]
                row = r.loc[key]
                S.ensure('unit written', row['Units'] == us[k])
                for c in ('a', 'n', 'z'):
                    S.ensure('value divided by the factor of its own unit', S.near(row[c], snap[c].iloc[k] / REAL[us[k]], 1e-12), f'{c} {row[c]} {snap[c].iloc[k]} {us[k]}')
                S.ensure('text unchanged', row['t'] == snap['t'].iloc[k])
        else:
            src = str(f)
        b = S.call(file_io.load_data, src, REAL, 1, reindex=False, return_units=True)
        S.no_raise('loaded', b)
        data, un = b
        got = {tuple(map(str, x)) if isinstance(x, tuple) else str(x): i for i, x in enumerate(data.index)}
        S.ensure('labels', len(data) == nr and (f is not None or set(got) == set(L)), f'{list(data.index)} {L}')
        if set(got) != set(L):      # numbers in a single-level header come back as numbers from a csv file
            return
        for k in range(nr):
            row = data.iloc[got[L[k]]]
            S.ensure('unit reported', un.iloc[[str(x) if lv == 1 else tuple(map(str, x)) for x in un.index].index(L[k])] == us[k])
            for c in ('a', 'n', 'z'):
                S.ensure('physical values restored', S.near(row[c], snap[c].iloc[k], 1e-9), f'{c} {row[c]} {snap[c].iloc[k]}')
            S.ensure('text restored', row['t'] == snap['t'].iloc[k])
            S.cover('text column')
            S.cover('integer column')


@contract('C12', 'files', ['pelicun.file_io.save_to_csv', 'pelicun.file_io.load_data', 'pelicun.file_io.load_from_file'], kind='runtime', bound='up to 30x6, units of the published table', runs=120,
          covers=['integer data', 'missing values'])
def files(S):
    lv, nr, nc = S.int('levels', 2, 5), S.int('rows', 1, 30), S.int('cols', 1, 6)
    L = [x for x in labels(S, nc, lv) if 'nan' not in x]
    nc = len(L)
    if not nc:
        return
    us = [str(S.rng.choice([*REAL])) if S.rng.random() < 0.8 else None for _ in L]
    S.drawn['units'], S.drawn['labels'] = us, L
    df = pd.DataFrame(S.rng.normal(size=(nr, nc)) * 10.0 ** S.rng.integers(-4, 5, nc), columns=pd.MultiIndex.from_tuples(L))
    if S.case('integers', [False, True]):
        df.isetitem(0, S.rng.integers(0, 50, nr))
        S.cover('integer data')
    if S.case('missing', [False, True]) and nr > 1:
        df.iloc[int(S.rng.integers(nr)), nc - 1] = np.nan
        S.cover('missing values')
    units = pd.Series(us, index=df.columns, name='Units', dtype=object).iloc[S.rng.permutation(nc)]
    snap = df.copy(deep=True)
    with tempdir() as d:
        f = Path(d) / 'sub.csv'
        r = S.call(file_io.save_to_csv, df, f, units, REAL)
        S.no_raise('saved', r)
        S.ensure('table in memory kept', df.equals(snap) and list(df.dtypes) == list(snap.dtypes))
        raw = pd.read_csv(f, index_col=0, dtype=str, keep_default_na=False)
        S.ensure('one row of units', list(raw.index)[0] == 'Units' and len(raw) == nr + 1)
        for j in range(nc):
            col = raw['-'.join(L[j])].tolist()
            S.ensure('unit written', col[0] == (us[j] or ''))
            for i in range(nr):
                x = snap.iloc[i, j]
                S.ensure('file holds the value in its unit', (col[1 + i] == '' if np.isnan(x) else S.near(float(col[1 + i]), x / (REAL[us[j]] if us[j] else 1.0), 1e-12)))
        b = S.call(file_io.load_data, str(f), REAL, return_units=True)
        if all(u is None for u in us):
            return
        S.no_raise('loaded', b)
        data, un = b
        S.ensure('labels restored', sorted(data.columns) == sorted(L), f'{list(data.columns)} {L}')
        S.ensure('units reported', un.to_dict() == {l: u for l, u in zip(L, us) if u is not None})
        for j in range(nc):
            a, c = snap.iloc[:, j].to_numpy(dtype=float), data[L[j]].to_numpy(dtype=float)
            S.ensure('physical values restored', bool(np.allclose(a, c, rtol=1e-12, atol=0, equal_nan=True)), f'{L[j]} {us[j]} {a} {c}')
        S.refused('other file types are refused', S.call(file_io.save_to_csv, df, Path(d) / 'x.txt', units, REAL), 'ValueError')
        S.refused('missing files are refused', S.call(file_io.load_data, str(Path(d) / 'none.csv'), REAL), 'FileNotFoundError')
    S.refused('factors are needed', S.call(file_io.save_to_csv, df, None, units, None), 'ValueError')


LEN, ACC, CST, TIM = ['m', 'in', 'ft', 'mm'], ['g', 'mps2', 'inps2'], ['USD_2011', 'USD_2010', 'USD'], ['worker_day', 'day', 'hour']


def roundtrip(S, model, save, load, sample, wanted, attr, units_of):
    """shared: model keeps its table, the exported table is value / factor, loading restores it"""
    snap = getattr(*attr).copy(deep=True)
    out = S.call(save, None, save_units=True)
    S.no_raise('exported', out)
    S.ensure('the table in memory is kept', getattr(*attr).equals(snap) and getattr(*attr).columns.equals(snap.columns))
    data, un = out
    S.ensure('exported columns', set(map(tuple, data.columns)) == set(map(tuple, snap.columns)))
    for c in snap.columns:
        u = wanted[c]
        S.ensure('exported unit', un[c] == u, f'{c}: {un[c]} {u}')
        S.ensure('exported value is in its unit', bool(np.allclose(data[c].to_numpy(dtype=float) * REAL[u], snap[c].to_numpy(dtype=float), rtol=1e-12, atol=0, equal_nan=True)), f'{c} {u}')
    with tempdir() as d:
        f = os.path.join(d, 's.csv')
        S.no_raise('saved', S.call(save, f))
        S.ensure('the table in memory is kept', getattr(*attr).equals(snap))
        S.no_raise('loaded', S.call(load, f))
    back = getattr(attr[0], attr[1])
    S.ensure('loaded columns', [tuple(map(str, c)) for c in back.columns] == sorted(tuple(map(str, c)) for c in snap.columns), f'{list(back.columns)}')
    for c in snap.columns:
        S.ensure('physical values restored', bool(np.allclose(back[tuple(map(str, c))].to_numpy(dtype=float), snap[c].to_numpy(dtype=float), rtol=1e-12, atol=0, equal_nan=True)), f'{c}')
    if units_of is not None:
        units_of()


@contract('C12', 'demand sample', ['pelicun.model.demand_model.DemandModel.save_sample', 'pelicun.model.demand_model.DemandModel.load_sample'], kind='runtime', bound='up to 8 demands, 12 realizations', runs=60, covers=['loaded', 'event id', 'blanks'])
def demand(S):
    a = base_assessment()
    from pelicun.model import demand_model
    m = demand_model.DemandModel(a)
    n = S.int('n', 1, 12)
    cols = []
    for t, us in (('PID', ['rad']), ('PFA', ACC), ('PFD', LEN)):
        for loc in S.rng.permutation(12)[: S.rng.integers(1, 3)]:
            cols.append((t, str(loc), str(S.rng.integers(1, 3)), str(S.rng.choice(us))))
    cols = [cols[i] for i in S.rng.permutation(len(cols))]
    S.drawn['cols'] = cols
    ev = S.case('event', [False, True])
    bl = S.case('blank', ['', ' '])
    raw = pd.DataFrame(S.rng.random((n, len(cols))) * 10, columns=[('1-' if ev else '') + f'-{bl}'.join(c[:3]) for c in cols])
    src = pd.concat([pd.DataFrame([[c[3] for c in cols]], columns=raw.columns, index=['Units']), raw.astype(object)])
    ssnap = src.copy(deep=True)
    r = S.call(m.load_sample, src)
    S.no_raise('loaded', r)
    S.ensure('source kept', src.equals(ssnap) and list(src.columns) == list(ssnap.columns))
    S.cover('loaded')
    if ev:
        S.cover('event id')
    if bl:
        S.cover('blanks')
    S.ensure('every demand once', sorted(map(tuple, m.sample.columns)) == sorted(c[:3] for c in cols))
    for j, c in enumerate(cols):
        S.ensure('demand in base units', bool(np.allclose(m.sample[c[:3]].to_numpy(dtype=float), raw.iloc[:, j].to_numpy() * REAL[c[3]], rtol=1e-12, atol=0)))
        S.ensure('unit of the demand', m.user_units[c[:3]] == c[3])
    W = {c[:3]: c[3] for c in cols}

    def chk():
        S.ensure('units restored', {tuple(k): v for k, v in m.user_units.items()} == W)
    roundtrip(S, m, m.save_sample, m.load_sample, None, W, (m, 'sample'), chk)


@contract('C12', 'asset sample', ['pelicun.model.asset_model.AssetModel.save_cmp_sample', 'pelicun.model.asset_model.AssetModel.load_cmp_sample'], kind='runtime', bound='up to 5 components, 12 realizations', runs=60, covers=['several units'])
def asset(S):
    a = base_assessment()
    from pelicun.model import asset_model
    m = asset_model.AssetModel(a)
    n, k = S.int('n', 1, 12), S.int('k', 1, 5)
    units, cols = {}, []
    for i in range(k):
        cmp = ['B.10.31', 'C', 'a.b', 'D.1', 'E'][i]
        units[cmp] = str(S.rng.choice(['ea', 'ft2', 'm2', 'm', 'ft', 'in', 'm3', 'kg']))
        for _ in range(int(S.rng.integers(1, 4))):
            c = (cmp, str(S.rng.integers(0, 12)), str(S.rng.integers(0, 3)), str(S.rng.integers(0, 11)))
            if c not in cols:
                cols.append(c)
    if len(set(units.values())) > 1:
        S.cover('several units')
    cols = sorted(cols) if S.case('sorted', [True, False]) else cols
    m.cmp_sample = pd.DataFrame(S.rng.random((n, len(cols))) * 100, columns=pd.MultiIndex.from_tuples(cols, names=['cmp', 'loc', 'dir', 'uid']))
    order = list(units)
    m.cmp_units = pd.Series([units[c] for c in order], index=order)
    S.drawn['cols'], S.drawn['units'] = cols, units

    def chk():
        S.ensure('units restored', m.cmp_units.to_dict() == units)
        S.ensure('groups restored', [tuple(x) for x in m.cmp_marginal_params.index] == sorted(cols))
    roundtrip(S, m, m.save_cmp_sample, m.load_cmp_sample, None, {c: units[c[0]] for c in cols}, (m, 'cmp_sample'), chk)


@contract('C12', 'damage sample', ['pelicun.model.damage_model.DamageModel.save_sample', 'pelicun.model.damage_model.DamageModel.load_sample'], kind='runtime', bound='up to 4 components, 10 realizations', runs=60, covers=['saved'])
def damage(S):
    a = full_assessment()
    m = a.damage
    n, k = S.int('n', 1, 10), S.int('k', 1, 4)
    units, cols = {}, []
    for i in range(k):
        cmp = ['B.10.31', 'C', 'a.b', 'D.1'][i]
        units[cmp] = str(S.rng.choice(['ea', 'ft2', 'm2', 'ft', 'in']))
        for _ in range(int(S.rng.integers(1, 3))):
            g = (cmp, str(S.rng.integers(0, 12)), str(S.rng.integers(0, 3)), str(S.rng.integers(0, 2)))
            if any(c[:4] == g for c in cols):
                continue
            cols += [(*g, str(ds)) for ds in range(int(S.rng.integers(1, 4)))]
    extra = S.case('undamageable', [False, True])
    a.asset.cmp_units = pd.Series({**units})
    m.ds_model.sample = pd.DataFrame(S.rng.random((n, len(cols))) * 100, columns=pd.MultiIndex.from_tuples(cols, names=['cmp', 'loc', 'dir', 'uid', 'ds']))
    S.drawn['cols'], S.drawn['units'] = cols, units
    S.cover('saved')
    roundtrip(S, m, m.save_sample, m.load_sample, None, {c: units[c[0]] for c in cols}, (m.ds_model, 'sample'), None)


@contract('C12', 'loss sample', ['pelicun.model.loss_model.RepairModel_Base.save_sample', 'pelicun.model.loss_model.LossModel.save_sample', 'pelicun.model.loss_model.RepairModel_DS.save_sample', 'pelicun.model.loss_model.RepairModel_DS.load_sample'],
          kind='runtime', bound='up to 3 consequences, 10 realizations', runs=120, covers=['saved', 'several units'])
def loss(S):
    a = full_assessment()
    m = a.loss.ds_model
    n = S.int('n', 1, 10)
    dvu = {}
    cols = []
    cs = ['B.10.31', 'C', 'a.b'][: S.int('k', 1, 3)]
    U = {'Cost': ['USD_2011'], 'Time': ['worker_day', 'day', 'hour'], 'Carbon': ['kg', 'lb'], 'Energy': ['MJ']}
    for dv in ('Cost', 'Time', 'Carbon')[: S.int('dvs', 1, 3)]:
        mixed = S.rng.random() < 0.5
        u = str(S.rng.choice([x for x in U[dv] if x in REAL]))
        for c in cs:
            dvu[(c, dv)] = str(S.rng.choice([x for x in U[dv] if x in REAL])) if mixed else u
            for _ in range(int(S.rng.integers(1, 3))):
                col = (dv, c, c + 'x', str(S.rng.integers(0, 4)), str(S.rng.integers(0, 11)), '1', '0')
                if col not in cols:
                    cols.append(col)
    m.loss_params = pd.DataFrame({('DV', 'Unit'): list(dvu.values())}, index=pd.MultiIndex.from_tuples(list(dvu)))
    m.sample = pd.DataFrame(S.rng.random((n, len(cols))) * 100, columns=pd.MultiIndex.from_tuples(cols, names=['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']))
    S.drawn['cols'], S.drawn['units'] = cols, {str(k): v for k, v in dvu.items()}
    S.cover('saved')
    got = {}

    def load(f):
        got['u'] = m.load_sample(f)

    def chk():
        used = {}
        for c in cols:
            used.setdefault(c[0], set()).add(dvu[c[1], c[0]])
        if any(len(x) > 1 for x in used.values()):
            S.cover('several units')
        S.ensure('units reported', set(got['u']) == set(used) and all(got['u'][dv] in u for dv, u in used.items()), str(got))
    roundtrip(S, m, m.save_sample, load, None, {c: dvu[(c[1], c[0])] for c in cols}, (m, 'sample'), chk)


@contract('C12', 'unknown units', ['pelicun.file_io.load_data', 'pelicun.file_io.save_to_csv'], kind='runtime', bound='unit texts listed in the harness', runs=40, covers=['refused'])
def unknown(S):
    bad = S.case('unit', ['inc', 'percent', 'G', '10 ft', 'xyz', 'm ', '1'])
    o = S.case('orientation', [0, 1])
    t = pd.DataFrame({'a': [1.0, 2.0], 'b': [3.0, 4.0]}, index=['x', 'y'])
    if o == 0:
        d = t.astype(object)
        d.loc['Units'] = ['ft', bad]
    else:
        d = t.copy()
        d['Units'] = [bad, 'ft']
    S.refused('tables with unknown units are not loaded', S.call(file_io.load_data, d, dict(REAL), orientation=o), 'ValueError', 'KeyError')
    u = pd.Series({'a': 'ft', 'b': bad})
    S.refused('tables are not saved in unknown units', S.call(file_io.save_to_csv, t, None, units=u, unit_conversion_factors=dict(REAL)), 'ValueError', 'KeyError')
    S.cover('refused')


@contract('C12', 'demand model', ['pelicun.model.demand_model.DemandModel.save_model', 'pelicun.model.demand_model.DemandModel.load_model', 'pelicun.model.pelicun_model.PelicunModel._convert_marginal_params'],
          kind='runtime', bound='up to 5 demands, 30 raw realizations, normal, lognormal and empirical marginals with truncation limits', runs=80, covers=['files', 'tables', 'empirical', 'correlated', 'limits'])
def demand_model_(S):
    import os
    n = S.int('n', 15, 30)
    units = {'PID': ['rad', 'unitless'], 'PFA': ['g', 'mps2', 'inps2'], 'PGV': ['inps', 'mps', 'cmps'], 'PGA': ['g', 'ftps2']}
    cols = {}
    for t in S.rng.permutation(list(units))[:S.int('types', 1, 4)]:
        u = str(S.rng.choice(units[str(t)]))
        for l in range(int(S.rng.integers(1, 3))):
            cols[(str(t), str(l + 1), '1')] = u
    raw = pd.DataFrame({c: S.rng.lognormal(np.log(2.0), 0.3, n) for c in cols})
    raw.columns = pd.MultiIndex.from_tuples(list(cols))
    table = raw.astype(object)
    table.loc['Units'] = [cols[c] for c in cols]
    conf = {'ALL': {'DistributionFamily': str(S.rng.choice(['lognormal', 'normal', 'empirical']))}}
    for t in {c[0] for c in cols}:
        if S.rng.random() < 0.6:
            conf[t] = {'DistributionFamily': str(S.rng.choice(['lognormal', 'normal', 'empirical']))}
            if conf[t]['DistributionFamily'] != 'empirical' and S.rng.random() < 0.5:
                conf[t].update(TruncateUpper=50.0, Unit=[cols[c] for c in cols if c[0] == t][0])
                S.cover('limits')
    S.drawn.update(conf=conf, units={str(k): v for k, v in cols.items()})
    a = full_assessment(Seed=1)
    with quiet():
        a.demand.load_sample(table)
        r = S.call(a.demand.calibrate_model, conf)
    S.no_raise('calibrated', r)
    P, E, R = a.demand.marginal_params.copy(), a.demand.empirical_data, a.demand.correlation
    with tempdir() as d, quiet():
        S.no_raise('saved', S.call(a.demand.save_model, os.path.join(d, 'm')))
        S.ensure('model kept in memory', a.demand.marginal_params.equals(P))
        m = pd.read_csv(os.path.join(d, 'm_marginals.csv'), index_col=0)
        for c in cols:
            S.ensure('saved in the units of the demand', m.loc['-'.join(c), 'Units'] == cols[c])
            if P.loc[c, 'Family'] != 'empirical':
                S.ensure('parameters saved in the units of the demand', bool(np.isclose(m.loc['-'.join(c), 'Theta_0'] * REAL[cols[c]], P.loc[c, 'Theta_0'], rtol=1e-9)), f'{c}')
                if 'TruncateUpper' in m and pd.notna(P.loc[c].get('TruncateUpper')):
                    S.ensure('limits saved in the units of the demand', bool(np.isclose(m.loc['-'.join(c), 'TruncateUpper'] * REAL[cols[c]], P.loc[c, 'TruncateUpper'], rtol=1e-9)), f'{c}')
        b = full_assessment(Seed=1)
        if S.case('source', ['files', 'tables']) == 'files':
            S.cover('files')
            r = S.call(b.demand.load_model, os.path.join(d, 'm'))
        else:
            src = {'marginals': m}
            for k, v in (('empirical', E), ('correlation', R)):
                if v is not None and v.size:
                    src[k] = pd.read_csv(os.path.join(d, f'm_{k}.csv'), index_col=0)
            S.cover('tables')
            r = S.call(b.demand.load_model, src)
    S.no_raise('loaded', r)
    Q = b.demand.marginal_params
    S.ensure('same demands', set(map(tuple, Q.index)) == set(cols))
    for c in cols:
        S.ensure('same unit', b.demand.user_units[c] == cols[c])
        S.ensure('same family', Q.loc[c, 'Family'] == P.loc[c, 'Family'])
        for k in ('Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper'):
            x, y = P.loc[c].get(k, np.nan), Q.loc[c].get(k, np.nan)
            if P.loc[c, 'Family'] == 'empirical':
                continue
            S.ensure('same physical parameters', (pd.isna(x) and pd.isna(y)) or bool(np.isclose(float(x), float(y), rtol=1e-9)), f'{c} {k}: {x} {y}')
    if E is not None:
        S.cover('empirical')
        S.ensure('empirical data restored', b.demand.empirical_data is not None and sorted(map(tuple, b.demand.empirical_data.columns)) == sorted(map(tuple, E.columns)))
        for c in E.columns:
            S.ensure('same physical data', bool(np.allclose(b.demand.empirical_data[c].to_numpy(dtype=float), E[c].to_numpy(dtype=float), rtol=1e-9)), f'{c}')
    if R is not None and R.size:
        S.cover('correlated')
        for x in R.index:
            for y in R.columns:
                S.ensure('same correlations', bool(np.isclose(float(b.demand.correlation.loc[x, y]), float(R.loc[x, y]), atol=1e-12)), f'{x} {y}')


@contract('C12', 'combined loss sample', ['pelicun.model.loss_model.LossModel.save_sample', 'pelicun.model.loss_model.LossModel.sample'], kind='runtime', bound='up to 3 consequences and 10 realizations of damage consequences, loss functions or both', runs=100,
          covers=['damage', 'functions', 'both', 'several units'])
def combined(S):
    from pelicun import file_io
    r = S.rng
    a = full_assessment()
    n = S.int('n', 1, 10)
    U = {'Cost': ['USD_2011'], 'Time': ['worker_day', 'day', 'hour'], 'Carbon': ['kg', 'lb'], 'Energy': ['MJ', 'J']}
    dvs = [list(U)[i] for i in r.permutation(4)[:S.int('dvs', 1, 4)]]
    kind = S.case('kind', ['damage', 'functions', 'both'])
    S.cover(kind)
    unit, values = {}, {}
    for name, m, cs in (('damage', a.loss.ds_model, ['B.10.31', 'C', 'a.b']), ('functions', a.loss.lf_model, ['D.2', 'c', 'B.10'])):
        if kind not in (name, 'both'):
            continue
        cols, dvu = [], {}
        for dv in dvs:
            for c in cs[: int(r.integers(1, 4))]:
                dvu[c, dv] = str(r.choice([x for x in U[dv] if x in REAL]))
                for _ in range(int(r.integers(1, 3))):
                    col = (dv, c, c + 'x', *((str(r.integers(1, 4)),) if name == 'damage' else ()), str(r.integers(0, 11)), '1', '0')
                    if col not in cols:
                        cols.append(col)
        names = ['dv', 'loss', 'dmg', *(('ds',) if name == 'damage' else ()), 'loc', 'dir', 'uid']
        m.loss_params = pd.DataFrame({('DV', 'Unit'): list(dvu.values())}, index=pd.MultiIndex.from_tuples(list(dvu)))
        m.sample = pd.DataFrame(r.random((n, len(cols))) * 100, columns=pd.MultiIndex.from_tuples(cols, names=names))
        for c in cols:
            key = tuple(dict(zip(names, c)).get(k) for k in ('dv', 'loss', 'dmg', 'loc', 'dir', 'uid'))
            unit[key] = dvu[c[1], c[0]]
            values[key] = values.get(key, 0) + m.sample[c].to_numpy()
    if any(len({u for k, u in unit.items() if k[0] == dv}) > 1 for dv in dvs):
        S.cover('several units')
    keep = [None if m.sample is None else m.sample.copy() for m in (a.loss.ds_model, a.loss.lf_model)]
    S.drawn['units'] = {str(k): v for k, v in unit.items()}
    with quiet(), tempdir() as d:
        out = S.call(a.loss.save_sample, save_units=True)
        S.no_raise('returned', out)
        alone = S.call(a.loss.save_sample)
        S.no_raise('saved', S.call(a.loss.save_sample, f'{d}/x.csv'))
        back = S.call(file_io.load_data, f'{d}/x.csv', a.unit_conversion_factors)
        S.no_raise('loaded', back)
    t, units = out
    S.ensure('returned without units on request', isinstance(alone, pd.DataFrame) and alone.equals(t), f'{type(alone)}')
    names = list(t.columns.names)

    def gather(t, f):
        g = {}
        for c in t.columns:
            x = dict(zip(names, c))
            k = tuple(x.get(k) for k in ('dv', 'loss', 'dmg', 'loc', 'dir', 'uid'))
            g[k] = g.get(k, 0) + f(c)
        return g
    S.ensure('every loss has a unit', all(units[c] == unit[k] for c in t.columns for k in [tuple(dict(zip(names, c)).get(k) for k in ('dv', 'loss', 'dmg', 'loc', 'dir', 'uid'))]), f'{units}')
    for label, g in (('returned in its unit', gather(t, lambda c: t[c].to_numpy(dtype=float) * REAL[units[c]])), ('loaded as saved', gather(back, lambda c: back[c].to_numpy(dtype=float)))):
        S.ensure(f'exactly the losses, {label}', set(g) == set(values), f'{list(g)} {list(values)}')
        for k, v in values.items():
            S.ensure(f'loss {label}', np.allclose(g[k], v, rtol=1e-6), f'{k} {g[k]} {v}')
    S.ensure('losses kept', all((x is None and m.sample is None) or m.sample.equals(x) for x, m in zip(keep, (a.loss.ds_model, a.loss.lf_model))))


@contract('C12', 'component sample of another source', ['pelicun.model.asset_model.AssetModel.load_cmp_sample', 'pelicun.base.dedupe_index'], kind='runtime', bound='up to 8 groups and 6 realizations', runs=60,
          covers=['without group numbers', 'repeated', 'with group numbers', 'file', 'refused'])
def foreign(S):
    r = S.rng
    a = base_assessment()
    from pelicun.model import asset_model
    m = asset_model.AssetModel(a)
    n, k = S.int('n', 1, 6), S.int('k', 1, 8)
    uid, file = S.case('group numbers', [True, False]), S.case('file', [True, False])
    unit = {c: str(r.choice(['ea', 'ft2', 'm2', 'm', 'in', 'kg'])) for c in ('B.10.31', 'C', 'a.b')}
    cols = []
    for _ in range(k):
        c = (str(r.choice(list(unit))), str(r.integers(0, 3)), str(r.integers(0, 2)), *([str(r.integers(0, 3))] if uid else []))
        if c not in cols or not (uid or file):
            cols.append(c)
    S.cover('with group numbers' if uid else 'without group numbers')
    if len(set(cols)) < len(cols):
        S.cover('repeated')
    values = r.random((n, len(cols))) * 100
    t = pd.concat([pd.DataFrame([[unit[c[0]] for c in cols]], index=['Units']), pd.DataFrame(values).astype(object)])
    t.columns = pd.MultiIndex.from_tuples(cols)
    wrong = r.random() < 0.1
    if wrong:
        t.columns = pd.MultiIndex.from_tuples([(c[0], c[1]) for c in cols]) if r.random() < 0.5 else pd.MultiIndex.from_tuples([(*c, 'x', 'y')[:5] for c in cols])
    S.drawn['columns'] = cols
    keep = t.copy(deep=True)
    with quiet(), tempdir() as d:
        src = t
        if file and not wrong:
            S.cover('file')
            src = t.copy()
            src.columns = ['-'.join(c) for c in cols]
            src.to_csv(f'{d}/x.csv')
            src = f'{d}/x.csv'
        out = S.call(m.load_cmp_sample, src)
    S.ensure('source kept', t.equals(keep) and t.columns.equals(keep.columns))
    if wrong:
        S.cover('refused')
        S.refused('columns that name no groups', out, 'ValueError')
        return
    S.no_raise('loaded', out)
    want, seen = {}, {}
    for j, c in enumerate(cols):
        if not uid:
            seen[c] = seen.get(c, -1) + 1
            c = (*c, str(seen[c]))
        want[c] = values[:, j] * REAL[unit[c[0]]]
    back = m.cmp_sample
    S.ensure('every group once', sorted(map(tuple, back.columns)) == sorted(want), f'{list(back.columns)}')
    S.ensure('levels named', list(back.columns.names) == ['cmp', 'loc', 'dir', 'uid'], f'{back.columns.names}')
    S.ensure('groups listed', sorted(map(tuple, m.cmp_marginal_params.index)) == sorted(want))
    for c, w in want.items():
        S.ensure('quantity of the group', np.allclose(back[c].to_numpy(dtype=float), w, rtol=1e-12), f'{c} {w}')
    S.ensure('units', {c: m.cmp_units[c] for c in {c[0] for c in want}} == {c: unit[c] for c in {c[0] for c in want}}, f'{m.cmp_units}')


NA = ['', 'N/A', '-1.#QNAN', 'null', 'None', '<NA>', 'nan', '-NaN', '1.#IND', 'NaN', '#NA', '1.#QNAN', 'NULL', '-nan', '#N/A', '#N/A N/A', 'n/a', '-1.#IND', 'NA']
TEXT = ['x', 'normal', 'None ', 'Nan', 'none', 'na', '0,1|2,3', 'ft2', '-', '1.0.0', 'NAN x', '#', 'True']


@contract('C12', 'missing values, numbers and texts', ['pelicun.file_io.load_data', 'pelicun.base.with_parsed_str_na_values', 'pelicun.base.check_if_str_is_na', 'pelicun.base.convert_dtypes'], kind='runtime', bound='up to 5 columns and 6 rows', runs=150,
          covers=['text', 'numbers as text', 'missing', 'mixed', 'table', 'file', 'with units', 'without units'])
def texts(S):
    from pelicun import file_io
    r = S.rng
    pick = lambda x: x[int(r.integers(len(x)))]
    n, k = S.int('n', 1, 6), S.int('k', 1, 5)
    file, units = S.case('file', [True, False]), S.case('units', [True, False])
    S.cover('file' if file else 'table')
    S.cover('with units' if units else 'without units')
    us = [pick(['ft', 'm', 'kg', 'inch', None]) for _ in range(n)]
    cols, want, kinds = [], [], []
    for j in range(k):
        kind = pick(['text', 'numbers', 'numbers as text', 'mixed', 'all missing'])
        kinds.append(kind)
        cells, w = [], []
        for i in range(n):
            if kind == 'all missing' or r.random() < 0.2:
                cells.append(pick(NA) if r.random() < 0.7 else pick([None, np.nan]))
                w.append(None)
                S.cover('missing')
                continue
            number = kind.startswith('numbers') or (kind == 'mixed' and r.random() < 0.5)
            if number:
                x = float(np.round(r.normal() * 10, 4)) if r.random() < 0.7 else int(r.integers(-5, 6))
                w.append(x)
                cells.append(repr(x) if kind == 'numbers as text' or (kind == 'mixed' and not file) else x)
            else:
                x = pick(TEXT[:-1] if kind == 'text' else TEXT[:6])
                w.append(x)
                cells.append(x)
        numeric = all(x is None or not isinstance(x, str) for x in w)
        S.cover('numbers as text' if kind == 'numbers as text' else 'mixed' if kind == 'mixed' else 'text' if kind == 'text' else 'numbers')
        cols.append(cells)
        want.append((numeric, w))
    names = [f'c{i}' for i in r.permutation(k)]
    t = pd.DataFrame(dict(zip(names, cols)), index=[f'r{i}' for i in range(n)], columns=names, dtype=object)
    if units:
        t.insert(0, 'Units', us)
    S.drawn.update(table=[[str(x) for x in c] for c in cols], units=us)
    keep = t.copy(deep=True)
    with quiet(), tempdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        src = t
        if file:
            t.to_csv(f'{d}/x.csv')
            src = f'{d}/x.csv'
        res = S.call(file_io.load_data, src, REAL if units else None, orientation=1, reindex=False)
    S.no_raise('loaded', res)
    S.ensure('source kept', t.equals(keep) and list(t.columns) == list(keep.columns))
    S.ensure('all rows and columns', sorted(res.columns) == sorted(names) and list(res.index) == [f'r{i}' for i in range(n)], f'{res}')
    for c, (numeric, w) in zip(names, want):
        for i in range(n):
            x = res[c].iloc[i]
            if w[i] is None:
                S.ensure('missing stays missing', bool(pd.isna(x)), f'{c} {i} {x!r}')
            elif numeric:
                f = REAL[us[i]] if units and us[i] is not None else 1.0
                S.ensure('numbers', not isinstance(x, str) and np.isclose(float(x), w[i] * f, rtol=1e-9, atol=1e-15), f'{c} {i} {x!r} {w[i]} {f}')
            else:
                S.ensure('texts', str(x) == str(w[i]) or (not isinstance(w[i], str) and float(x) == w[i]), f'{c} {i} {x!r} {w[i]!r}')


def close(S, a, b):
    """equal up to rounding"""
    if not S.symbolic:
        return bool(np.isclose(float(a), float(b), rtol=1e-9, atol=1e-12))
    from pyvc.core import And, Or
    e = 1e-12
    return Or(And(b >= 0, a <= b * (1 + e), a >= b * (1 - e)), And(b <= 0, a >= b * (1 + e), a <= b * (1 - e)))


@contract('C12', 'every sample in memory', ['pelicun.model.demand_model.DemandModel.save_sample', 'pelicun.model.demand_model.DemandModel.load_sample', 'pelicun.model.asset_model.AssetModel.save_cmp_sample', 'pelicun.model.asset_model.AssetModel.load_cmp_sample',
                                            'pelicun.model.damage_model.DamageModel.save_sample', 'pelicun.model.damage_model.DamageModel.load_sample', 'pelicun.model.loss_model.RepairModel_DS.save_sample', 'pelicun.file_io.save_to_csv', 'pelicun.file_io.load_data'],
          kind='bounded', modules=[file_io, base], runs=60, bound='demand, component, damage and loss samples of one or two realizations and 4 columns with any of three units per component, in two orders of columns and of components, one component without results (enumerated); all values symbolic',
          covers=['demand', 'asset', 'damage', 'loss', 'same unit', 'different units', 'loaded again'])
def memory(S):
    from contracts.c22 import soft
    which = S.case('sample', ['demand', 'asset', 'damage', 'loss'])
    S.cover(which)
    n = S.case('n', [1, 2])
    a = full_assessment()
    names = {'demand': ['PFA', 'PID'], 'asset': ['B.1', 'B.10'], 'damage': ['B.1', 'B.10'], 'loss': ['r.2', 'r']}[which]
    choice = {'demand': ['inps2', 'rad', 'g'], 'asset': ['ft2', 'ea', 'm2'], 'damage': ['ft2', 'ea', 'm2'], 'loss': ['hour', 'day', 'worker_day']}[which]
    unit = {c: S.case(f'unit {i}', choice) for i, c in enumerate(names)}
    S.cover('same unit' if len(set(unit.values())) == 1 else 'different units')
    cols = {'demand': lambda c: [(c, '1', '1'), (c, '10', '2')], 'asset': lambda c: [(c, '1', '1', '0'), (c, '10', '2', '1')], 'damage': lambda c: [(c, '1', '1', '0', '0'), (c, '1', '1', '0', '10')],
            'loss': lambda c: [('Time', c, 'x', '1', '1', '1', '0'), ('Time', c, 'y', '2', '10', '1', '0')]}[which]
    cols = [x for c in names for x in cols(c)]
    if S.case('columns', ['sorted', 'mixed']) == 'mixed':
        cols = [cols[2], cols[0], cols[3], cols[1]]
    order = names if S.case('components', ['in order', 'reversed']) == 'in order' else names[::-1]
    v = [[S.real(f'v{i}_{j}', -1e6, 1e6) for j in range(len(cols))] for i in range(n)]
    arr = np.empty((n, len(cols)), dtype=object)
    for i in range(n):
        for j in range(len(cols)):
            arr[i, j] = v[i][j]
    level = {'demand': ['type', 'loc', 'dir'], 'asset': ['cmp', 'loc', 'dir', 'uid'], 'damage': ['cmp', 'loc', 'dir', 'uid', 'ds'], 'loss': ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']}[which]
    t = pd.DataFrame(arr if S.symbolic else arr.astype(float), columns=pd.MultiIndex.from_tuples(cols, names=level))
    of = lambda c: c[1] if which == 'loss' else c[0]
    if which == 'demand':
        m, at, save = a.demand, (a.demand, 'sample'), a.demand.save_sample
        m.user_units = pd.Series([unit[of(c)] for c in cols], index=t.columns, name='Units')
    elif which == 'asset':
        m, at, save = a.asset, (a.asset, 'cmp_sample'), a.asset.save_cmp_sample
        m.cmp_units = pd.Series([unit[c] for c in order], index=order)
    elif which == 'damage':
        m, at, save = a.damage, (a.damage.ds_model, 'sample'), a.damage.save_sample
        a.asset.cmp_units = pd.Series([unit[c] for c in order], index=order)
    else:
        m, at, save = a.loss.ds_model, (a.loss.ds_model, 'sample'), a.loss.ds_model.save_sample
        m.loss_params = pd.DataFrame({('DV', 'Unit'): [unit[c] for c in order] + ['day']}, index=pd.MultiIndex.from_tuples([(c, 'Time') for c in order] + [('unused', 'Time')]))
    setattr(*at, t)
    keep = t.copy(deep=True)
    with quiet(), soft(S), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = S.call(save, save_units=True)
        S.no_raise('saved', r)
        plain = S.call(save)
        S.no_raise('saved without units', plain)
    got, units = r
    S.ensure('sample kept', getattr(*at) is t and list(t.columns) == list(keep.columns))
    for k, x in (('with units', got), ('without units', plain)):
        S.ensure(f'every result {k}', sorted(map(tuple, x.columns)) == sorted(cols) and len(x) == n, f'{list(x.columns)}')
    S.ensure('the unit of every component', len(units) == len(cols) and {tuple(c): units[c] for c in units.index} == {c: unit[of(c)] for c in cols}, f'{units}')
    for j, c in enumerate(cols):
        f = REAL[unit[of(c)]]
        for i in range(n):
            S.ensure('sample kept', S.exact(t.iloc[i, j], v[i][j]))
            for x in (got, plain):
                y = x[c].iloc[i]
                S.ensure('the value in its unit', close(S, y * f, v[i][j]), f'{c} {y} {v[i][j]}')
    # and back
    other = full_assessment()
    o, back = {'demand': (other.demand, (other.demand, 'sample')), 'asset': (other.asset, (other.asset, 'cmp_sample')), 'damage': (other.damage, (other.damage.ds_model, 'sample')), 'loss': (other.loss.ds_model, (other.loss.ds_model, 'sample'))}[which]
    if which == 'damage':
        other.asset.cmp_units = a.asset.cmp_units
    table = pd.concat([units.to_frame().T, got.astype(object)])
    table.index = ['Units', *map(str, range(n))]
    table.columns.names = level
    with quiet(), soft(S), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        S.no_raise('loaded', S.call(o.load_cmp_sample if which == 'asset' else o.load_sample, table))
    b = getattr(*back)
    S.cover('loaded again')
    S.ensure('every result is loaded', sorted(map(tuple, b.columns)) == sorted(cols) and len(b) == n, f'{list(b.columns)}')
    for j, c in enumerate(cols):
        for i in range(n):
            S.ensure('the value is restored', close(S, b[c].iloc[i], v[i][j]), f'{c} {b[c].iloc[i]} {v[i][j]}')
