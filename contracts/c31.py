"""C31 grouped and exported results agree with the detailed results"""
import json
import pathlib
import warnings
import numpy as np
import pandas as pd
from pelicun import base
from pelicun.tools import DL_calculation
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, ite, smax
from contracts.util import *

D = 'pelicun.tools.DL_calculation.'


class Result:
    """a part of an assessment with a sample and units"""

    def __init__(self, sample, units=None):
        self.sample, self.units = sample, units

    def save_sample(self, filepath=None, *, save_units=False):
        return (self.sample.copy(), self.units.copy()) if save_units else (None if self.sample is None else self.sample.copy())

    save_cmp_sample = save_sample


class Holder:
    def __init__(self, **k):
        self.__dict__.update(k)


def table(r, names, values, n, units, missing=True, like='quantity'):
    """a random result table: columns over all levels (a random subset of the combinations), in random order"""
    import itertools
    cols = [c for c in itertools.product(*values) if r.random() < 0.7]
    if not cols:
        cols = [tuple(v[0] for v in values)]
    cols = [cols[i] for i in r.permutation(len(cols))]
    if r.random() < 0.6:
        cols = sorted(cols)
    d = r.lognormal(0, 1, (n, len(cols)))
    d[r.random(d.shape) < 0.3] = 0
    if missing and r.random() < 0.5:
        d[r.random(d.shape) < 0.3] = np.nan
        if r.random() < 0.5:
            d[:, int(r.integers(len(cols)))] = np.nan
    t = pd.DataFrame(d, columns=pd.MultiIndex.from_tuples(cols, names=names))
    u = pd.Series([units(c) for c in cols], index=t.columns, name='Units', dtype=object)
    return t, u


def groups(t, keep):
    """sum of the columns with the same labels at some levels; missing only where all are missing"""
    names = list(t.columns.names)
    out = {}
    for c in t.columns:
        k = tuple(c[names.index(x)] for x in keep)
        v = t[c].to_numpy(float)
        if k in out:
            a = out[k]
            out[k] = np.where(np.isnan(a), v, np.where(np.isnan(v), a, a + v))
        else:
            out[k] = v
    return out


def condensed(t):
    """governing damage state of each component and location"""
    out = {}
    for (c, l, ds), v in groups(t, ['cmp', 'loc', 'ds']).items():
        v = np.where(np.isnan(v), np.nan, np.where(v > 0, float(int(ds)), 0.0))
        out[c, l] = np.fmax(out[c, l], v) if (c, l) in out else v
    return out


def unit_of(u, keep):
    names = list(u.index.names)
    out = {}
    for c, x in u.items():
        out.setdefault(tuple(c[names.index(k)] for k in keep), x)
    return out


PCT = [0.001, 0.023, 0.10, 0.159, 0.5, 0.841, 0.90, 0.977, 0.999]


def stats(v):
    """the statistics of a column by their definitions"""
    x = np.sort(v[~np.isnan(v)])
    n = len(x)
    out = {'count': float(n), 'mean': x.sum() / n if n else np.nan, 'std': np.sqrt(((x - x.sum() / n) ** 2).sum() / (n - 1)) if n > 1 else np.nan, 'min': x[0] if n else np.nan, 'max': x[-1] if n else np.nan, 'log_std': np.nan}
    if n > 1 and x[0] > 0:
        lx = np.log(x)
        out['log_std'] = np.sqrt(((lx - lx.sum() / n) ** 2).sum() / (n - 1))
    for p in PCT:
        if not n:
            out[f'{p * 100:g}%'] = np.nan
            continue
        h = (n - 1) * p
        i = int(np.floor(h))
        out[f'{p * 100:g}%'] = x[i] + (h - i) * (x[min(i + 1, n - 1)] - x[i])
    return out


def read(path):
    return pd.read_csv(path, index_col=0, dtype=str, keep_default_na=False)


def num(s):
    return np.array([np.nan if x == '' else float(x) for x in s])


def near(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= rtol * np.abs(b) + 1e-12) | (np.isnan(a) & np.isnan(b))))


def check_sample(S, what, path, want, units, n):
    f = read(path)
    lab = {'-'.join(str(x) for x in k): k for k in want}
    S.ensure(f'{what}: one column for each group', sorted(f.columns) == sorted(lab), f'{sorted(f.columns)} {sorted(lab)}')
    S.ensure(f'{what}: one row for each realization and the units', [str(i) for i in f.index] == [str(i) for i in range(n)] + (['Units'] if units is not None else []), f'{list(f.index)}')
    for c in f.columns:
        got = num(f[c].iloc[:n])
        S.ensure(f'{what}: the sum of the detailed results of the group', near(got, want[lab[c]]), f'{c} {got} {want[lab[c]]}')
        if units is not None:
            S.ensure(f'{what}: the unit of the results', f.loc['Units', c] == units[lab[c]], f'{c} {f.loc["Units", c]}')


def check_stats(S, what, path, want, units):
    f = read(path)
    lab = {'-'.join(str(x) for x in k): k for k in want}
    S.ensure(f'{what}: one column for each group', sorted(f.columns) == sorted(lab), f'{sorted(f.columns)} {sorted(lab)}')
    for c in f.columns:
        w = stats(want[lab[c]])
        for k, v in w.items():
            S.ensure(f'{what}: the statistics of the results', k in f.index and near(num([f.loc[k, c]]), [v], 1e-7), f'{c} {k} {f.loc[k, c] if k in f.index else None} {v}')
        if units is not None:
            S.ensure(f'{what}: the unit of the results', f.loc['Units', c] == units[lab[c]])


def requests(S, r, names):
    out = {}
    for x in names:
        u = r.random()
        if u < 0.8:
            out[x] = bool(u < 0.65)
    S.drawn['requested'] = out
    return out


CMP, LOC, DIR, UID = ['cmp.A', 'cmp.B', 'collapse'], ['0', '1', '2'], ['0', '1'], ['0', '1', 'x']
UNIT = {'cmp.A': 'ea', 'cmp.B': 'm2', 'collapse': 'ea', 'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'kg', 'PFA': 'mps2', 'PID': 'rad', 'SA_1.0': 'mps2'}


def outputs(S, save, files):
    """run one of the functions that save results in a scratch folder; files: {requested name: file name}"""
    d = pathlib.Path(S.folder)
    out = []
    with quiet():
        res = S.call(save, d, out)
    S.no_raise('saved', res)
    got = sorted(p.name for p in d.iterdir())
    S.ensure('exactly the requested files', got == sorted(files) and sorted(out) == sorted(files), f'{got} {out} {files}')
    return d


@contract('C31', 'damage files', [D + '_damage_save', 'pelicun.base.describe', D + '_parse_requested_output_file_names'], kind='runtime', runs=120, bound='up to 3 components, 3 locations, 2 directions, 3 blocks, 4 damage states, 6 realizations',
          covers=['condensed', 'by component', 'aggregated', 'missing values', 'statistics'])
def damage_files(S):
    from pelicun.tools import DL_calculation as M
    r = S.rng
    n = int(r.integers(2, 7))
    t, u = table(r, ['cmp', 'loc', 'dir', 'uid', 'ds'], [CMP, LOC, DIR, UID[:int(r.integers(1, 4))], ['0', '1', '2', '10'][:int(r.integers(1, 5))]], n, lambda c: UNIT[c[0]])
    if t.isna().to_numpy().any():
        S.cover('missing values')
    req = requests(S, r, ['Sample', 'Statistics', 'GroupedSample', 'GroupedStatistics'])
    agg, cond = bool(r.random() < 0.5), bool(r.random() < 0.5)
    S.drawn['settings'] = [agg, cond]
    names = {'Sample': 'DMG_sample.zip', 'Statistics': 'DMG_stats.csv', 'GroupedSample': 'DMG_grp.zip', 'GroupedStatistics': 'DMG_grp_stats.csv'}
    files = [names[k] for k, v in req.items() if v]
    with tempdir() as S.folder:
        d = outputs(S, lambda p, o: M._damage_save(req, Holder(damage=Result(t, u)), p, o, aggregate_colocated=agg, condense_ds=cond), files)
        det = ['cmp', 'loc', 'dir', 'ds'] if agg else list(t.columns.names)
        S.cover('aggregated' if agg else 'by block')
        if 'DMG_sample.zip' in files:
            check_sample(S, 'damage', d / 'DMG_sample.zip', groups(t, det), unit_of(u, det), n)
        if 'DMG_stats.csv' in files:
            S.cover('statistics')
            check_stats(S, 'damage statistics', d / 'DMG_stats.csv', groups(t, det), unit_of(u, det))
        if cond:
            want, us = condensed(t), unit_of(u, ['cmp', 'loc'])
        else:
            want, us = groups(t, ['cmp']), unit_of(u, ['cmp'])
        if 'DMG_grp.zip' in files:
            S.cover('condensed' if cond else 'by component')
            check_sample(S, 'governing damage states' if cond else 'damage of components', d / 'DMG_grp.zip', want, us, n)
        if 'DMG_grp_stats.csv' in files:
            check_stats(S, 'statistics of grouped damage', d / 'DMG_grp_stats.csv', want, us)


@contract('C31', 'loss files', [D + '_loss_save', 'pelicun.base.describe', D + '_parse_requested_output_file_names'], kind='runtime', runs=120, bound='up to 3 decision variables, 2 consequences, 2 components, 3 damage states, 2 locations, 2 directions, 3 blocks, 6 realizations',
          covers=['with damage states', 'without damage states', 'aggregated', 'totals', 'missing values'])
def loss_files(S):
    from pelicun.tools import DL_calculation as M
    r = S.rng
    n = int(r.integers(2, 7))
    dv = ['Cost', 'Time', 'Carbon'][:int(r.integers(1, 4))]
    ds = bool(r.random() < 0.6)
    S.cover('with damage states' if ds else 'without damage states')
    names = ['dv', 'loss', 'dmg'] + (['ds'] if ds else []) + ['loc', 'dir', 'uid']
    vals = [dv, ['l.A', 'l.B'], CMP[:2]] + ([['1', '2', '3'][:int(r.integers(1, 4))]] if ds else []) + [LOC[:2], DIR, UID[:int(r.integers(1, 4))]]
    t, u = table(r, names, vals, n, lambda c: UNIT[c[0]])
    if t.isna().to_numpy().any():
        S.cover('missing values')
    total = pd.DataFrame(r.lognormal(0, 1, (n, 3)), columns=pd.MultiIndex.from_tuples([('repair_cost', ''), ('repair_time', 'parallel'), ('repair_time', 'sequential')]))
    req = requests(S, r, ['Sample', 'Statistics', 'GroupedSample', 'GroupedStatistics', 'AggregateSample', 'AggregateStatistics'])
    agg = bool(r.random() < 0.5)
    files_of = {'Sample': 'DV_repair_sample.zip', 'Statistics': 'DV_repair_stats.csv', 'GroupedSample': 'DV_repair_grp.zip', 'GroupedStatistics': 'DV_repair_grp_stats.csv', 'AggregateSample': 'DV_repair_agg.zip', 'AggregateStatistics': 'DV_repair_agg_stats.csv'}
    files = [files_of[k] for k, v in req.items() if v]
    with tempdir() as S.folder:
        d = outputs(S, lambda p, o: M._loss_save(req, Holder(loss=Result(t, u)), p, o, total, aggregate_colocated=agg), files)
        det = [x for x in names if x != 'uid'] if agg else names
        S.cover('aggregated' if agg else 'by block')
        if 'DV_repair_sample.zip' in files:
            check_sample(S, 'losses', d / 'DV_repair_sample.zip', groups(t, det), unit_of(u, det), n)
        if 'DV_repair_stats.csv' in files:
            check_stats(S, 'loss statistics', d / 'DV_repair_stats.csv', groups(t, det), unit_of(u, det))
        g = ['dv', 'loss', 'dmg']
        if 'DV_repair_grp.zip' in files:
            check_sample(S, 'losses of components', d / 'DV_repair_grp.zip', groups(t, g), unit_of(u, g), n)
        if 'DV_repair_grp_stats.csv' in files:
            check_stats(S, 'statistics of grouped losses', d / 'DV_repair_grp_stats.csv', groups(t, g), unit_of(u, g))
        w = {('repair_cost', ''): total['repair_cost', ''], ('repair_time', 'parallel'): total['repair_time', 'parallel'], ('repair_time', 'sequential'): total['repair_time', 'sequential']}
        w = {k: v.to_numpy() for k, v in w.items()}
        if 'DV_repair_agg.zip' in files:
            S.cover('totals')
            check_sample(S, 'total losses', d / 'DV_repair_agg.zip', w, None, n)
        if 'DV_repair_agg_stats.csv' in files:
            check_stats(S, 'statistics of total losses', d / 'DV_repair_agg_stats.csv', w, None)


@contract('C31', 'demand and asset files', [D + '_demand_save', D + '_asset_save', 'pelicun.base.describe'], kind='runtime', runs=120, bound='up to 3 types, 3 locations, 2 directions, 3 blocks, 6 realizations', covers=['demand', 'asset', 'aggregated'])
def demand_asset(S):
    from pelicun.tools import DL_calculation as M
    r = S.rng
    n = int(r.integers(2, 7))
    req = requests(S, r, ['Sample', 'Statistics'])
    with tempdir() as S.folder:
        if r.random() < 0.5:
            S.cover('demand')
            t, u = table(r, ['type', 'loc', 'dir'], [['PFA', 'PID', 'SA_1.0'], LOC, DIR], n, lambda c: UNIT[c[0]])
            names = {'Sample': 'DEM_sample.zip', 'Statistics': 'DEM_stats.csv'}
            files = [names[k] for k, v in req.items() if v]
            d = outputs(S, lambda p, o: M._demand_save(req, Holder(demand=Result(t, u)), p, o), files)
            det = list(t.columns.names)
        else:
            S.cover('asset')
            t, u = table(r, ['cmp', 'loc', 'dir', 'uid'], [CMP, LOC, DIR, UID], n, lambda c: UNIT[c[0]])
            names = {'Sample': 'CMP_sample.zip', 'Statistics': 'CMP_stats.csv'}
            files = [names[k] for k, v in req.items() if v]
            agg = bool(r.random() < 0.5)
            if agg:
                S.cover('aggregated')
            d = outputs(S, lambda p, o: M._asset_save(req, Holder(asset=Result(t, u)), p, o, aggregate_colocated=agg), files)
            det = ['cmp', 'loc', 'dir'] if agg else list(t.columns.names)
        if req.get('Sample'):
            check_sample(S, 'sample', d / names['Sample'], groups(t, det), unit_of(u, det), n)
        if req.get('Statistics'):
            check_stats(S, 'statistics', d / names['Statistics'], groups(t, det), unit_of(u, det))


@contract('C31', 'statistics', ['pelicun.base.describe'], kind='runtime', runs=200, bound='up to 5 columns and 40 rows', covers=['table', 'series', 'array', 'vector', 'missing values', 'not positive'])
def statistics(S):
    from pelicun import base
    r = S.rng
    n, m = int(r.integers(1, 41)), int(r.integers(1, 6))
    x = r.lognormal(0, 1, (n, m)) * 10.0 ** r.integers(-4, 5)
    if r.random() < 0.4:
        x[r.random(x.shape) < 0.3] *= -1
        S.cover('not positive')
    if r.random() < 0.3:
        x[r.random(x.shape) < 0.2] = np.nan
        S.cover('missing values')
    if r.random() < 0.2:
        x[:, 0] = 0.0
    kind = str(r.choice(['table', 'series', 'array', 'vector']))
    S.cover(kind)
    data = {'table': lambda: pd.DataFrame(x, columns=pd.MultiIndex.from_tuples([('a', str(i)) for i in range(m)])), 'series': lambda: pd.Series(x[:, 0], name='a'), 'array': lambda: x, 'vector': lambda: x[:, 0]}[kind]()
    snap = S.snapshot(data)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = S.call(base.describe, data)
    S.no_raise('described', got)
    S.unchanged('the sample is not changed', snap, data)
    S.ensure('one column of statistics for each column', got.shape[1] == (m if kind in ('table', 'array') else 1))
    for j in range(got.shape[1]):
        for k, v in stats(x[:, j]).items():
            S.ensure('each statistic is the one of its column', k in got.index and near([got.iloc[list(got.index).index(k), j]], [v], 1e-7), f'{k} {j} {v}')


def nested(d, path=()):
    """leaves of nested dictionaries"""
    for k, v in d.items():
        if isinstance(v, dict):
            yield from nested(v, (*path, k))
        else:
            yield (*path, k), v


def same_value(a, b):
    if isinstance(b, float) and np.isnan(b):
        return a is None or (isinstance(a, float) and np.isnan(a)) or a == ''
    try:
        return abs(float(a) - float(b)) <= 1e-12 * abs(float(b))
    except (TypeError, ValueError):
        return a == b


@contract('C31', 'dictionaries', [D + 'convert_df_to_dict'], kind='runtime', runs=300, bound='up to 4 levels and 10 columns', covers=['one level', 'two levels', 'more levels', 'names of rows', 'rows as columns'])
def dictionaries(S):
    from pelicun.tools import DL_calculation as M
    r = S.rng
    lev = int(r.integers(1, 5))
    labels = sorted({tuple(str(r.choice(['a', 'b', '1', '2', 'x.y'])) for _ in range(lev)) for _ in range(int(r.integers(1, 11)))})
    labels = [labels[i] for i in r.permutation(len(labels))] if r.random() < 0.5 else labels
    n = int(r.integers(1, 6))
    rows = [str(i) for i in range(n)] if r.random() < 0.6 else ['mean', 'std', '50%', 'min', 'max'][:n]
    numbered = rows[0] == '0'
    if numbered and r.random() < 0.5:
        rows = [int(x) for x in rows]
    x = r.normal(0, 10, (n, len(labels)))
    if r.random() < 0.3:
        x[r.random(x.shape) < 0.2] = np.nan
    df = pd.DataFrame(x, index=rows, columns=[x[0] for x in labels] if lev == 1 else pd.MultiIndex.from_tuples(labels))
    S.cover({1: 'one level', 2: 'two levels'}.get(lev, 'more levels'))
    flip = bool(r.random() < 0.3)
    S.drawn['table'] = [labels, rows, flip]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = S.call(M.convert_df_to_dict, df.T, axis=0) if flip else S.call(M.convert_df_to_dict, df)
    S.no_raise('converted', got)
    if flip:
        S.cover('rows as columns')
    flat = dict(nested(got))
    if not numbered:
        S.cover('names of rows')
        want = {(*c, q): x[i, j] for j, c in enumerate(labels) for i, q in enumerate(rows)}
        S.ensure('exactly the labels of the table', set(flat) == set(want), f'{sorted(set(flat) ^ set(want))}')
        S.ensure('exactly the values of the table', all(same_value(flat[k], v) for k, v in want.items()))
    else:
        want = {c: x[:, j] for j, c in enumerate(labels)}
        S.ensure('exactly the labels of the table', set(flat) == set(want), f'{sorted(set(flat) ^ set(want))}')
        S.ensure('exactly the values of the table', all(isinstance(flat[k], list) and near(flat[k], v) for k, v in want.items()))
    S.refused('another axis', S.call(M.convert_df_to_dict, df, axis=2), 'ValueError')


@contract('C31', 'json files', [D + '_create_json_files_if_requested', D + '_remove_csv_files_if_not_requested', D + 'convert_df_to_dict'], kind='runtime', runs=150, bound='up to 3 files of results', covers=['simple index', 'nested index', 'units', 'no units', 'csv removed', 'not requested'])
def json_files(S):
    from pelicun.tools import DL_calculation as M
    r = S.rng
    n = int(r.integers(1, 6))
    simple, js, csv = bool(r.random() < 0.5), bool(r.random() < 0.85), bool(r.random() < 0.5)
    cfg = {'DL': {'Outputs': {'Format': {'JSON': js, 'CSV': csv}, 'Settings': {'SimpleIndexInJSON': simple}}}}
    S.drawn['config'] = cfg
    made = {}
    with tempdir() as d:
        p = pathlib.Path(d)
        (p / 'other.csv').write_text('mine')
        for name in [str(x) for x in r.permutation(['DMG_grp.zip', 'DV_repair_agg.zip', 'DEM_stats.csv', 'DL_summary.csv'])[:int(r.integers(1, 5))]]:
            with_units = name.startswith('D') and name[:3] != 'DV_' and 'summary' not in name
            t, u = table(r, ['cmp', 'loc'], [CMP, LOC], n, lambda c: UNIT[c[0]], missing=False)
            if name in ('DV_repair_agg.zip', 'DL_summary.csv'):
                t.columns = [f'{a}.{b}' for a, b in t.columns]
            else:
                t.columns = [f'{a}-{b}' for a, b in t.columns]
            u.index = t.columns
            if 'stats' in name:
                t.index = ['mean', 'std', 'min', 'max', '50%'][:n]
            f = pd.concat([t, u.to_frame().T]) if with_units else t
            f.to_csv(p / name, compression={'method': 'zip', 'archive_name': name[:-3] + 'csv'} if name.endswith('zip') else None)
            made[name] = (t, u if with_units else None)
            S.cover('units' if with_units else 'no units')
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            S.no_raise('exported', S.call(M._create_json_files_if_requested, cfg, list(made), p))
            S.no_raise('cleaned', S.call(M._remove_csv_files_if_not_requested, cfg, list(made), p))
        here = sorted(x.name for x in p.iterdir())
        want = ['other.csv'] + [m[:-3] + 'json' for m in made if js] + [m for m in made if csv or m.startswith('DL_summary')]
        S.ensure('exactly the files in the requested formats', here == sorted(want), f'{here} {sorted(want)}')
        S.ensure('other files are left alone', (p / 'other.csv').read_text() == 'mine')
        if not csv:
            S.cover('csv removed')
        if not js:
            S.cover('not requested')
            return
        for m, (t, u) in made.items():
            got = json.loads((p / (m[:-3] + 'json')).read_text())
            un = got.pop('Units', None)
            if u is None:
                S.ensure('units only where the results have units', un is None)
            else:
                S.ensure('the units of the results', un == dict(u), f'{m} {un}')
            S.cover('simple index' if simple else 'nested index')
            flat = dict(nested(got))
            for j, c in enumerate(t.columns):
                key = (c,) if simple else tuple(c.split('-'))
                v = t.iloc[:, j].to_numpy()
                if 'stats' in m:
                    S.ensure('each statistic under its label', all((*key, q) in flat and near([float(flat[*key, q])], [v[i]]) for i, q in enumerate(t.index)), f'{m} {key}')
                else:
                    S.ensure('the values of each realization under the label of the result', key in flat and near(flat[key], v), f'{m} {key} {flat.get(key)}')
            S.ensure('nothing else is exported', len(flat) == t.shape[1] * (len(t.index) if 'stats' in m else 1), f'{m} {sorted(flat)[:5]}')


@contract('C31', 'summary', [D + '_result_summary', D + '_summary_save'], kind='runtime', runs=200, bound='up to 5 component types, 6 realizations', covers=['collapse', 'no collapse', 'irreparable', 'losses', 'no losses', 'no damage', 'nothing'])
def summary(S):
    from pelicun.tools import DL_calculation as M
    r = S.rng
    n = int(r.integers(2, 7))
    has = [bool(r.random() < 0.7) for _ in range(2)]
    t = None
    if has[0]:
        pool = ['cmp.A', 'collapse.A'] + [x for x in ('collapse', 'irreparable', 'excessiveRID') if r.random() < 0.6]
        t, u = table(r, ['cmp', 'loc', 'dir', 'uid', 'ds'], [pool, ['0', '1'], ['1'], ['0'], ['0', '1', '11']], n, lambda c: 'ea', missing=False)
        for c in list(t.columns):
            if c[0] in ('collapse', 'irreparable'):
                if c[1] != '0' or c[4] == '11':
                    del t[c]
                else:
                    t[c] = r.integers(0, 2, n).astype(float)
        t = t.sort_index(axis=1) if r.random() < 0.5 else t
        if t.shape[1] == 0:
            S.stop()
    else:
        S.cover('no damage')
    agg = None
    if has[1]:
        S.cover('losses')
        agg = pd.DataFrame(r.lognormal(0, 1, (n, 2)), columns=pd.MultiIndex.from_tuples([('repair_cost', ''), ('repair_time', 'parallel')]))
    else:
        S.cover('no losses')
    S.drawn['damage'] = None if t is None else [list(c) for c in t.columns]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = S.call(M._result_summary, Holder(damage=Result(t)), agg)
    S.no_raise('summarized', res)
    s, st = res
    want = {}
    if agg is not None:
        want['repair_cost-'], want['repair_time-parallel'] = agg.iloc[:, 0].to_numpy(), agg.iloc[:, 1].to_numpy()
    if t is not None:
        for x in ('collapse', 'irreparable'):
            cols = [c for c in t.columns if c[0] == x and c[4] == '1']
            S.cover(x if cols else 'no collapse')
            want[x] = t[cols].to_numpy().sum(axis=1) if cols else np.zeros(n)
    if not want:
        S.cover('nothing')
        S.ensure('an empty summary without results', s.empty and st.empty)
        return
    S.ensure('exactly the losses, collapse and irreparable damage', sorted(s.columns) == sorted(want), f'{list(s.columns)}')
    for k, v in want.items():
        S.ensure('the summary reports the corresponding results', near(s[k], v), f'{k} {s[k].to_numpy()} {v}')
        w = stats(v)
        S.ensure('the statistics of the summary', all(near([st.loc[q, k]], [w[q]], 1e-7) for q in w), k)
    with tempdir() as d, quiet():
        out = []
        M._summary_save(s, st, pathlib.Path(d), out)
        f = read(pathlib.Path(d) / 'DL_summary.csv')
        S.ensure('the summary file holds the summary', sorted(f.columns) == sorted(want) and all(near(num(f[k]), v) for k, v in want.items()) and sorted(out) == ['DL_summary.csv', 'DL_summary_stats.csv'])


def saved(S, run):
    """the tables that a function of the exports writes, {file name: table}, without writing them"""
    from contracts.c22 import soft
    got = {}

    def to_csv(self, path=None, *args, **kwargs):
        got[pathlib.Path(path).name] = self.copy()

    out = []
    with swap(pd.DataFrame, 'to_csv', to_csv), quiet(), soft(S):
        r = S.call(run, pathlib.Path('unused'), out)
    S.no_raise('saved', r)
    S.ensure('the saved files are listed', sorted(out) == sorted(got), f'{out} {list(got)}')
    return got


def symbols(S, labels, names, missing, units):
    """a table of one realization with an arbitrary amount of not less than zero in every column, or nothing where missing"""
    arr = np.empty((1, len(labels)), dtype=float if not S.symbolic else object)
    for j, c in enumerate(labels):
        arr[0, j] = np.nan if j in missing else S.real('amount ' + '-'.join(c), lo=0.0, hi=1e6)
    t = pd.DataFrame(arr, columns=pd.MultiIndex.from_tuples(labels, names=names))
    return t, pd.Series([units(c) for c in labels], index=t.columns, name='Units', dtype=object)


def together(t, keep):
    """[amounts] of the columns with the same labels at some levels, without the missing ones"""
    names = list(t.columns.names)
    out = {}
    for j, c in enumerate(t.columns):
        l = out.setdefault(tuple(c[names.index(x)] for x in keep), [])
        x = t.iat[0, j]
        if not (isinstance(x, float) and np.isnan(x)):
            l.append(x)
    return out


def compare(S, what, f, want, units):
    """one column for each group with the wanted amount (None: missing) and unit"""
    lab = {'-'.join(k): k for k in want}
    S.ensure(f'{what}: one column for each group', sorted(f.columns) == sorted(lab), f'{list(f.columns)} {list(lab)}')
    for c in f.columns:
        x, w = f[c].iloc[0], want[lab[c]]
        if w is None:
            S.ensure(f'{what}: missing where nothing is known', isinstance(x, float) and np.isnan(x), f'{c} {x}')
        else:
            S.ensure(f'{what}: the results', not (isinstance(x, float) and np.isnan(x)) and S.near(x, w), f'{c} {x} {w}')
        S.ensure(f'{what}: the unit of the results', f[c].loc['Units'] == units[lab[c]], f'{c} {f[c].loc["Units"]}')


def total(l):
    return sum(l[1:], l[0]) if l else None


DAMAGE = [[('A', '1', '1', '0', '0'), ('A', '1', '1', '0', '1'), ('A', '1', '1', '0', '2')], [('A', '1', '1', '0', '1'), ('A', '1', '1', '1', '1'), ('A', '1', '2', '0', '2'), ('A', '2', '1', '0', '1')],
          [('B', '2', '1', '0', '10'), ('A', '1', '1', '0', '2'), ('A', '2', '1', '0', '2'), ('A', '2', '1', '1', '1')], [('A', '0', '0', 'x', '0'), ('B', '0', '0', 'x', '0'), ('B', '0', '0', 'y', '3')]]


@contract('C31', 'every damage', [D + '_damage_save', D + '_parse_requested_output_file_names'], kind='bounded', modules=[DL_calculation, base], runs=60, max_paths=20000,
          bound='symbolic: 4 layouts of at most 4 columns, one realization, arbitrary amounts of not less than zero, none or any one column missing; all settings of grouping and condensing', covers=['condensed', 'by component', 'aggregated', 'missing'])
def every_damage(S):
    labels = DAMAGE[S.case('layout', list(range(len(DAMAGE))))]
    miss = S.case('missing', [-1, 0, 1, 2])
    agg, cond = S.case('aggregated', [False, True]), S.case('condensed', [False, True])
    t, u = symbols(S, labels, ['cmp', 'loc', 'dir', 'uid', 'ds'], {miss}, lambda c: {'A': 'ea', 'B': 'm2'}[c[0]])
    got = saved(S, lambda p, o: DL_calculation._damage_save({'Sample': True, 'GroupedSample': True}, Holder(damage=Result(t, u)), p, o, aggregate_colocated=agg, condense_ds=cond))
    S.ensure('exactly the requested files', sorted(got) == ['DMG_grp.zip', 'DMG_sample.zip'], f'{list(got)}')
    det = ['cmp', 'loc', 'dir', 'ds'] if agg else ['cmp', 'loc', 'dir', 'uid', 'ds']
    S.cover('aggregated' if agg else 'condensed' if cond else 'by component')
    if miss >= 0:
        S.cover('missing')
    compare(S, 'damage', got['DMG_sample.zip'], {k: total(v) for k, v in together(t, det).items()}, unit_of(u, det))
    if not cond:
        compare(S, 'damage of components', got['DMG_grp.zip'], {k: total(v) for k, v in together(t, ['cmp']).items()}, unit_of(u, ['cmp']))
        return
    want = {}
    for (c, l, ds), v in together(t, ['cmp', 'loc', 'ds']).items():
        want.setdefault((c, l), [])
        if v:
            want[c, l].append(ite(total(v) > 0, float(int(ds)), 0.0))
    for k, v in want.items():
        for x in v[1:]:
            v[0] = smax(v[0], x)
    compare(S, 'governing damage states', got['DMG_grp.zip'], {k: v[0] if v else None for k, v in want.items()}, unit_of(u, ['cmp', 'loc']))


LOSS = [(['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'], [('Cost', 'l', 'A', '1', '1', '1', '0'), ('Cost', 'l', 'A', '2', '1', '1', '0'), ('Cost', 'l', 'A', '1', '1', '1', '1'), ('Time', 'l', 'A', '1', '1', '1', '0')]),
        (['dv', 'loss', 'dmg', 'loc', 'dir', 'uid'], [('Time', 'm', 'A', '2', '1', '0'), ('Cost', 'l', 'B', '1', '1', '0'), ('Cost', 'l', 'A', '1', '1', '1'), ('Cost', 'l', 'A', '1', '1', '0')]),
        (['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'], [('Cost', 'l', 'A', '1', '1', '1', '0'), ('Cost', 'm', 'A', '1', '1', '1', '0'), ('Cost', 'l', 'A', '1', '2', '2', '0')])]


@contract('C31', 'every loss', [D + '_loss_save', D + '_parse_requested_output_file_names'], kind='bounded', modules=[DL_calculation, base], runs=60, max_paths=20000,
          bound='symbolic: 3 layouts of at most 4 columns, one realization, arbitrary losses of not less than zero, none or any one column missing; both settings of grouping', covers=['aggregated', 'by block', 'missing'])
def every_loss(S):
    names, labels = LOSS[S.case('layout', list(range(len(LOSS))))]
    miss, agg = S.case('missing', [-1, 0, 1, 2]), S.case('aggregated', [False, True])
    t, u = symbols(S, labels, names, {miss}, lambda c: {'Cost': 'USD_2011', 'Time': 'worker_day'}[c[0]])
    tot = pd.DataFrame([[S.real('total 0'), S.real('total 1')]], columns=pd.MultiIndex.from_tuples([('repair_cost', ''), ('repair_time', 'parallel')]), dtype=float if not S.symbolic else object)
    got = saved(S, lambda p, o: DL_calculation._loss_save({'Sample': True, 'GroupedSample': True, 'AggregateSample': True}, Holder(loss=Result(t, u)), p, o, tot, aggregate_colocated=agg))
    S.ensure('exactly the requested files', sorted(got) == ['DV_repair_agg.zip', 'DV_repair_grp.zip', 'DV_repair_sample.zip'], f'{list(got)}')
    S.cover('aggregated' if agg else 'by block')
    if miss >= 0:
        S.cover('missing')
    det = [x for x in names if x != 'uid'] if agg else names
    compare(S, 'losses', got['DV_repair_sample.zip'], {k: total(v) for k, v in together(t, det).items()}, unit_of(u, det))
    compare(S, 'losses of components', got['DV_repair_grp.zip'], {k: total(v) for k, v in together(t, ['dv', 'loss', 'dmg']).items()}, unit_of(u, ['dv', 'loss', 'dmg']))
    x = got['DV_repair_agg.zip']
    S.ensure('totals of all decision variables', sorted(x.columns) == ['repair_cost-', 'repair_time-parallel'], f'{list(x.columns)}')
    S.ensure('totals as calculated', And(S.near(x['repair_cost-'].iloc[0], tot.iat[0, 0]), S.near(x['repair_time-parallel'].iloc[0], tot.iat[0, 1])))


ASSET = [[('A', '1', '1', '0'), ('A', '1', '1', '1'), ('B', '1', '2', '0')], [('B', '2', '1', '1'), ('A', '1', '1', '0'), ('B', '2', '1', '0'), ('B', '2', '1', '2')]]


@contract('C31', 'every asset', [D + '_asset_save', D + '_parse_requested_output_file_names'], kind='bounded', modules=[DL_calculation, base], runs=40, max_paths=20000,
          bound='symbolic: 2 layouts of at most 4 columns, one realization, arbitrary quantities, none or any one column missing; both settings of grouping', covers=['aggregated', 'by block', 'missing'])
def every_asset(S):
    labels = ASSET[S.case('layout', [0, 1])]
    miss, agg = S.case('missing', [-1, 0, 1, 2]), S.case('aggregated', [False, True])
    t, u = symbols(S, labels, ['cmp', 'loc', 'dir', 'uid'], {miss}, lambda c: {'A': 'ea', 'B': 'm2'}[c[0]])
    got = saved(S, lambda p, o: DL_calculation._asset_save({'Sample': True}, Holder(asset=Result(t, u)), p, o, aggregate_colocated=agg))
    S.ensure('exactly the requested files', sorted(got) == ['CMP_sample.zip'], f'{list(got)}')
    S.cover('aggregated' if agg else 'by block')
    if miss >= 0:
        S.cover('missing')
    det = ['cmp', 'loc', 'dir'] if agg else ['cmp', 'loc', 'dir', 'uid']
    compare(S, 'quantities', got['CMP_sample.zip'], {k: total(v) for k, v in together(t, det).items()}, unit_of(u, det))
