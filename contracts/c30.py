"""C30 regional mapping assigns each building its own intensity measures"""
import json
import os
import pathlib
import warnings
import numpy as np
import pandas as pd
from pyvc import arrays
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite, smin, smax
from contracts.util import *

from pelicun.tools import NNR as _nnr  # noqa: E402
N = 'pelicun.tools.NNR.NNR'
R = 'pelicun.tools.regional_sim.'
EPS = 1e-20


class Neighbors:
    """contract of sklearn's NearestNeighbors: for each target the nearest sources in order of their distances"""
    dist = ind = fitted = asked = None

    def __init__(self, n_neighbors=5, **k):
        Neighbors.k = n_neighbors

    def fit(self, X, y=None):
        Neighbors.fitted = X
        return self

    def kneighbors(self, X=None, **k):
        Neighbors.asked = X
        return Neighbors.dist, Neighbors.ind


def obj(shape, f):
    d = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        d[i] = f(*i)
    return d


@contract('C30', 'weighted average', [N], kind='bounded', modules=[_nnr], max_paths=400, covers=['3D', '2D', '1D', 'squared', 'inverse', 'uniform', 'at a grid point'],
          bound='1 target, up to 3 neighbors, 2 measures and 2 realizations; all distances and values')
def average(S):
    from pelicun.tools import NNR as M
    k = S.case('neighbors', [1, 2, 3])
    shape = S.case('values', ['3D', '2D', '1D'])
    weight = S.case('weight', ['distance2', 'distance1', 'uniform'])
    S.cover(shape)
    S.cover({'distance2': 'squared', 'distance1': 'inverse', 'uniform': 'uniform'}[weight])
    nf, nr = (2, 2) if k < 3 else (1, 2)
    if shape != '3D':
        nr = 1
    if shape == '1D':
        nf = 1
    zero = S.case('nearest at the target', [False, True])
    d, last = [], 0.0
    for j in range(k):
        if j == 0 and zero:
            d.append(0.0)
            S.cover('at a grid point')
            continue
        x = last + S.real(f'd{j}', lo=1e-6 if zero or j == 0 else 0, hi=1e3, scale=5)
        d.append(x)
        last = x
    order = S.case('sources', [[0, 1, 2, 3], [2, 0, 3, 1], [3, 2, 1, 0]])[:k]
    v = obj((4, nf, nr), lambda s, f, r: S.real(f'v{s}{f}{r}', scale=3) if s in order else 0.5 * s)
    known = v if shape == '3D' else v[:, :, 0] if shape == '2D' else v[:, 0, 0]
    if S.symbolic:
        known = known.view(arrays.OArr)
        dist = obj((1, k), lambda i, j: d[j]).view(arrays.OArr)
    else:
        known, dist = known.astype(float), np.array([d], dtype=float)
    Neighbors.dist, Neighbors.ind = dist, np.array([order])
    src = np.arange(8.0).reshape(4, 2)
    with swap(M, 'NearestNeighbors', Neighbors):
        got = S.call(M.NNR, np.array([[1.0, 2.0]]), src, known, n_neighbors=k, weight=weight)
    S.no_raise('mapped', got)
    S.ensure('the neighbors are searched among the grid points', np.array_equal(Neighbors.fitted, src) and np.array_equal(Neighbors.asked, [[1.0, 2.0]]) and Neighbors.k == k)
    S.ensure('one value for each measure and realization', tuple(np.shape(got)) == {'3D': (1, nf, nr), '2D': (1, nf), '1D': (1,) if np.ndim(got) == 1 else (1, 1)}[shape], f'{np.shape(got)}')
    got = np.asarray(got).reshape(1, nf, nr)
    e = [x + EPS for x in d]
    for f in range(nf):
        for r in range(nr):
            vals = [v[s, f, r] for s in order]
            g = got[0, f, r]
            lo, hi = vals[0], vals[0]
            for x in vals[1:]:
                lo, hi = smin(lo, x), smax(hi, x)
            size = sum((ite(x > 0, x, -x) for x in vals[1:]), ite(vals[0] > 0, vals[0], -vals[0]))
            tol = 0 if S.symbolic and weight != 'uniform' else 1e-9 * size     # (1 / 3 is rounded)
            S.ensure('never outside the range of the neighbors', And(g >= lo - tol, g <= hi + tol))
            # weighted average with the weights of the chosen kind
            p = {'distance2': 2, 'distance1': 1, 'uniform': 0}[weight]
            if p == 0:
                tot = sum(vals[1:], vals[0])
                S.ensure('the weighted average of the neighbors', And(g * k - tot <= 3 * tol, tot - g * k <= 3 * tol))
                continue
            w = [1 / x ** p if not S.symbolic else 1 / (x * x if p == 2 else x) for x in e]
            tot = sum(w[1:], w[0])
            S.ensure('the weighted average of the neighbors', S.near(g, sum((a / tot * b for a, b in zip(w[1:], vals[1:])), w[0] / tot * vals[0])))


@contract('C30', 'nearest', [N], kind='runtime', runs=300, bound='up to 30 grid points, 10 targets, 4 measures, 5 realizations', covers=['same place', 'resampled', 'line', 'one value', 'repeated points'])
def nearest(S):
    from pelicun.tools.NNR import NNR
    r = S.rng
    n, m, k = int(r.integers(1, 31)), int(r.integers(1, 11)), None
    k = int(r.integers(1, min(n, 6) + 1))
    line = r.random() < 0.2
    src = r.uniform(-2, 2, n) if line else r.uniform(-2, 2, (n, 2))
    if n > 3 and r.random() < 0.2:
        src[1] = src[0]
        S.cover('repeated points')
    tgt = r.uniform(-2, 2, m) if line else r.uniform(-2, 2, (m, 2))
    if r.random() < 0.4:
        tgt[0] = src[int(r.integers(n))]
        S.cover('same place')
    if line:
        S.cover('line')
    nf, nr = int(r.integers(1, 5)), int(r.integers(1, 6))
    dims = int(r.choice([1, 2, 3]))
    vals = r.lognormal(0, 1, (n, nf, nr)) * 10.0 ** r.integers(-3, 4)
    known = vals if dims == 3 else vals[:, :, 0] if dims == 2 else vals[:, 0, 0]
    if dims == 1:
        S.cover('one value')
    if dims < 3:
        vals = vals[:, :(nf if dims == 2 else 1), :1]
    weight = str(r.choice(['distance2', 'distance1', 'uniform']))
    size = int(r.integers(1, 40)) if r.random() < 0.3 else -1
    seed = int(r.integers(1000))
    S.drawn['case'] = [n, m, k, weight, size, dims]
    snap = S.snapshot([src, tgt, known])
    got = S.call(NNR, tgt, src, known, sample_size=size, n_neighbors=k, weight=weight, seed=seed)
    S.no_raise('mapped', got)
    S.unchanged('the grid and the buildings are not changed', snap, [src, tgt, known])
    X, Y = src.reshape(n, -1), tgt.reshape(m, -1)
    D = np.sqrt(((Y[:, None, :] - X[None, :, :]) ** 2).sum(-1))
    if size > 0:
        S.cover('resampled')
        S.ensure('one value for each building, measure and realization', got.shape == (m, vals.shape[1], size))
        again = S.call(NNR, tgt, src, known, sample_size=size, n_neighbors=k, weight=weight, seed=seed)
        S.ensure('the same seed gives the same sample', np.array_equal(got, again))
    else:
        S.ensure('one value for each building, measure and realization', got.reshape(m, -1).shape[1] == vals.shape[1] * vals.shape[2])
    for i in range(m):
        order = np.argsort(D[i], kind='stable')
        near = order[D[i][order] <= D[i][order[k - 1]] * (1 + 1e-9)]
        if size > 0:
            for q in range(size):
                ok = [any(np.array_equal(got[i, :, q], vals[s, :, j]) for j in range(vals.shape[2])) for s in near]
                S.ensure('each realization is a realization of one of the neighbors', any(ok))
            continue
        if len(near) > k:
            continue    # several choices of neighbors
        d = D[i][near] + EPS
        p = {'distance2': 2, 'distance1': 1, 'uniform': 0}[weight]
        w = (d.min() / d) ** p
        w = w / w.sum()
        want = np.tensordot(w, vals[near], axes=1)
        g = got[i].reshape(want.shape) if dims != 1 else np.array(got).ravel()[i].reshape(want.shape)
        S.ensure('the weighted average of the values of the nearest grid points', np.allclose(g, want, rtol=1e-6, atol=0), f'{g} {want}')
        S.ensure('never outside the range of the neighbors', np.all(g >= vals[near].min(0) * (1 - 1e-9)) and np.all(g <= vals[near].max(0) * (1 + 1e-9)))


@contract('C30', 'building ids', [R + 'parse_id_filter'], kind='runtime', runs=600, bound='up to 8 parts', covers=['selected', 'refused', 'all'])
def building_ids(S):
    from pelicun.tools import regional_sim as M
    r = S.rng
    want, parts, bad = set(), [], False
    sp = lambda: ' ' * int(r.choice([0, 0, 1, 2]))
    for _ in range(int(r.integers(0, 9))):
        u = r.random()
        a, b = int(r.integers(0, 60)), int(r.integers(0, 60))
        if u < 0.45:
            parts.append(f'{sp()}{a}{sp()}')
            want.add(a)
        elif u < 0.85:
            a, b = min(a, b), max(a, b)
            parts.append(f'{sp()}{a}{sp()}-{sp()}{b}{sp()}')
            want |= set(range(a, b + 1))
        elif u < 0.93:
            parts.append(sp())
        else:
            bad = True
            parts.append(str(r.choice([f'{max(a, b) + 1}-{min(a, b)}', f'{a}a', 'x', f'{a}-', f'-{a}', f'{a}-{b}-{b}', f'{a}.5', f'{a};{b}', '--', f'{a} {b}'])))
    text = ','.join(parts)
    S.drawn['filter'] = text
    got = S.call(M.parse_id_filter, text)
    if bad:
        S.cover('refused')
        S.refused('anything else than IDs and ranges is refused', got, 'ValueError')
        return
    S.no_raise('parsed', got)
    S.ensure('exactly the listed IDs and ranges', list(got) == sorted(want), f'{text!r} {got}')
    S.cover('selected' if want else 'all')
    S.ensure('no filter selects nothing by ID', list(M.parse_id_filter('')) == [])


class Stop(Exception):
    pass


def inventory(r, n, ids=None):
    ids = ids if ids is not None else [int(x) for x in r.choice(np.arange(1, max(500, 3 * n)), n, replace=False)]
    return pd.DataFrame({'Longitude': r.uniform(-118.5, -118.3, n), 'Latitude': r.uniform(33.9, 34.1, n), 'OccupancyClass': r.choice(['RES1', 'COM4', 'EDU1'], n),
                         'StructureType': r.choice(['W1', 'C1'], n), 'kind': r.choice(['A', 'B'], n)}, index=pd.Index(ids, name='id'))


IMS = {'PGA': 'g', 'SA_1.0': 'g', 'SA_0.3': 'g', 'PGV': 'inps', 'PGD': 'inch', 'PWS': 'mph', 'PIH': 'ft'}


def grid(r, ims, n, nr):
    pts = pd.DataFrame({'GP_file': [f'site_{i}.csv' for i in range(n)], 'Longitude': r.uniform(-118.5, -118.3, n), 'Latitude': r.uniform(33.9, 34.1, n)})
    vals = {i: pd.DataFrame({im: np.round(r.lognormal(-1, 0.6, nr) * 10 ** j, 6) for j, im in enumerate(ims)}) for i in range(n)}
    return pts, vals


def mapped(pts, vals, b, im, k):
    """the value of a measure at a building in each realization"""
    d = np.sqrt((pts['Longitude'] - b['Longitude']) ** 2 + (pts['Latitude'] - b['Latitude']) ** 2).to_numpy() + EPS
    near = np.argsort(d, kind='stable')[:k]
    w = 1 / d[near] ** 2
    w = w / w.sum()
    return sum(x * vals[int(s)][im].to_numpy() for x, s in zip(w, near))


@contract('C30', 'demands of buildings', [R + 'process_buildings_chunk', N], kind='runtime', runs=60, bound='up to 8 buildings, 10 grid points, 5 measures, 6 realizations', covers=['mapped', 'not alphabetical', 'more demands than realizations', 'fewer demands than realizations'])
def demands(S):
    from pelicun.tools import regional_sim as M
    r = S.rng
    ims = [str(x) for x in r.permutation(list(IMS))[:int(r.integers(1, 6))]]
    if ims != sorted(ims):
        S.cover('not alphabetical')
    n, ng, nr = int(r.integers(1, 9)), int(r.integers(4, 11)), int(r.integers(1, 7))
    k = int(r.integers(1, 5))
    pts, vals = grid(r, ims, ng, nr)
    size = int(r.integers(1, 13))
    S.cover('more demands than realizations' if size > nr else 'fewer demands than realizations')
    bl = inventory(r, n)
    data = pd.concat([vals[i] for i in range(ng)], axis=1, keys=pts.index)
    caught = []

    class Demand:
        def load_sample(self, d, *a, **kw):
            caught.append(d)
            raise Stop

    class Fake:
        def __init__(self, *a, **kw):
            self.demand = Demand()
    S.drawn['case'] = [ims, n, ng, nr, k, size, [int(x) for x in bl.index]]
    cmp = lambda cfg, script: ({'DL': {'Losses': {'Repair': {'DecisionVariables': {'Cost': True}}}}}, pd.DataFrame({'Units': ['ea'], 'Location': ['1'], 'Direction': ['1'], 'Theta_0': [1]}, index=['c.' + cfg['GeneralInformation']['kind']]))
    with swap(M, 'auto_populate', cmp), swap(M, 'substitute_default_path', lambda x: x), swap(M, 'Assessment', Fake), quiet():
        out = S.call(M.process_buildings_chunk, bl, pts, data, k, size, size, 'some method', {im: IMS[im] for im in ims})
    S.ensure('the demands are used in the assessment', isinstance(out, Raised) and out.is_a('Stop'), f'{out}')
    d = caught[0]
    S.ensure('every building receives every requested measure', sorted(d.columns) == sorted(f'{im}-{b}-1' for b in bl.index for im in ims), f'{list(d.columns)}')
    for b, row in bl.iterrows():
        for im in ims:
            c = d[f'{im}-{b}-1']
            S.ensure('each measure keeps its own unit', c['Units'] == IMS[im], f'{im} {c["Units"]}')
            want = mapped(pts, vals, row, im, k)
            want = want[np.arange(size) % nr]
            got = c.drop('Units').to_numpy().astype(float)
            S.ensure('each building receives the values of its neighbors under the name of the measure', len(got) == size and np.allclose(got, want, rtol=1e-6), f'{im} {b} {got} {want}')
            S.cover('mapped')


OCC = {'RES1': 1, 'COM4': 10, 'EDU1': 1000}


def consequences(folder, ims, cap, hazus=False):
    """component A is damaged by the first measure, component B by the last one; Hazus losses depend on the occupancy class"""
    head = ['ID', 'Incomplete', 'Demand-Type', 'Demand-Unit', 'Demand-Offset', 'Demand-Directional', 'LS1-Family', 'LS1-Theta_0', 'LS1-Theta_1', 'LS2-Family', 'LS2-Theta_0', 'LS2-Theta_1']
    names = {'PGA': 'Peak Ground Acceleration', 'PGV': 'Peak Ground Velocity', 'PGD': 'Permanent Ground Deformation', 'SA_1.0': 'Spectral Acceleration|1.0', 'SA_0.3': 'Spectral Acceleration|0.3', 'PWS': 'Peak Gust Wind Speed', 'PIH': 'Peak Inundation Height'}
    rows = [[f'c.{x}', 0, names[im], IMS[im], 0, 0, None, c, None, None, 3 * c, None] for x, im, c in zip('AB', (ims[0], ims[-1]), cap)]
    pd.DataFrame(rows, columns=head).to_csv(f'{folder}/fragility.csv', index=False)
    lhead = ['ID', 'Incomplete', 'Quantity-Unit', 'DV-Unit', 'DS1-Theta_0', 'DS2-Theta_0']
    models = [(f'LF.{x}', q) for x, q in OCC.items()] if hazus else [('c.A', 1), ('c.B', 100)]
    pd.DataFrame([[f'{x}-{dv}', 0, '1 EA', u, a, b] for x, q in models for dv, u, a, b in (('Cost', 'USD_2011', q, 3 * q), ('Time', 'worker_day', 2 * q, 5 * q))], columns=lhead).to_csv(f'{folder}/consequence_repair.csv', index=False)


@contract('C30', 'regional run', [R + 'regional_sim', R + 'process_and_save_chunk', R + 'process_buildings_chunk', R + '_calculate_losses_general', R + '_calculate_losses_hazus_eq', R + 'parse_id_filter', R + 'unique_list'], kind='runtime', runs=20,
          bound='up to 8 buildings, two component types, deterministic capacities, one group of buildings', covers=['damaged', 'filtered', 'all buildings', 'costs', 'losses by occupancy', 'building without damage', 'nothing damaged'])
def run(S):
    r = S.rng
    region(S, int(r.integers(2, 9)), int(r.integers(1, 4)), int(r.integers(2, 7)))


@contract('C30', 'large regional run', [R + 'regional_sim', R + 'process_and_save_chunk', R + 'process_buildings_chunk'], kind='runtime', runs=1,
          bound='about 1000 to 2000 buildings, two realizations', covers=['damaged', 'costs'])
def large(S):
    r = S.rng
    region(S, int(r.choice([1001, 1009, 2003])), 1, 2, filtered=False)


WRONG = ['no measures', 'empty measures', 'measure without values', 'measure missing at one place', 'building that does not exist']


@contract('C30', 'incomplete regional input', [R + 'regional_sim', R + 'parse_id_filter'], kind='runtime', runs=30, bound='up to 8 buildings; ' + ', '.join(WRONG), covers=WRONG)
def incomplete(S):
    r = S.rng
    region(S, int(r.integers(2, 9)), int(r.integers(1, 4)), int(r.integers(2, 7)), wrong=S.case('wrong', WRONG))


def region(S, n, n_im, size, filtered=True, wrong=None):
    from pelicun.tools import regional_sim as M
    r = S.rng
    ims = [str(x) for x in r.permutation(list(IMS))[:n_im]]
    ng, nr = int(r.integers(4, 8)), int(r.integers(2, 6))
    k = int(r.integers(1, 5))
    pts, vals = grid(r, ims, ng, nr)
    bl = inventory(r, n)
    keep = [int(x) for x in bl.index]
    flt = None
    if filtered and r.random() < 0.6:
        keep = sorted(int(x) for x in r.choice(keep, int(r.integers(1, n + 1)), replace=False))
        flt = ','.join(str(x) for x in keep)
    S.cover('filtered' if flt else 'all buildings')
    cap = [float(np.quantile(np.concatenate([vals[i][im] for i in vals]), g)) for im, g in zip((ims[0], ims[-1]), [(0.5, 0.5), (0.8, 0.9), (1, 1)][int(r.choice(3, p=[0.6, 0.25, 0.15])) if filtered else 0])]
    hazus = bool(r.random() < 0.5)
    method = 'Hazus Earthquake - Buildings' if hazus else 'own'
    if hazus:
        S.cover('losses by occupancy')
    S.drawn['case'] = [ims, n, ng, nr, k, size, flt, method]
    here = os.getcwd()
    with tempdir() as d, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        os.chdir(d)
        try:
            pts.to_csv('grid.csv', index=False)
            for i, v in vals.items():
                v[list(r.permutation(v.columns))].to_csv(pts['GP_file'][i], index=False)
            bl.to_csv('buildings.csv')
            consequences(d, ims, cap, hazus)
            cfg = {'RegionalEvent': {'units': {im: IMS[im] for im in ims}, 'eventFilePath': d, 'eventFile': 'grid.csv'},
                   'Applications': {'RegionalMapping': {'Buildings': {'ApplicationData': {'samples': size, 'neighbors': k}}},
                                    'Assets': {'Buildings': {'ApplicationData': {'pathToSource': d, 'assetSourceFile': 'buildings.csv', **({'filter': flt} if flt else {})}}},
                                    'DL': {'Buildings': {'ApplicationData': {'Realizations': size, 'DL_Method': method}}}}}
            if wrong == 'no measures':
                del cfg['RegionalEvent']['units']
            elif wrong == 'empty measures':
                cfg['RegionalEvent']['units'] = {}
            elif wrong == 'measure without values':
                items = list(cfg['RegionalEvent']['units'].items())
                items.insert(int(r.integers(len(items) + 1)), ('PGX', 'g'))
                cfg['RegionalEvent']['units'] = dict(items)
            elif wrong == 'measure missing at one place':
                f = str(r.choice(list(pts['GP_file'])))
                pd.read_csv(f).drop(columns=str(r.choice(ims))).assign(other=1.0).to_csv(f, index=False)
            elif wrong:
                cfg['Applications']['Assets']['Buildings']['ApplicationData']['filter'] = ','.join(str(x) for x in r.permutation([*keep[:int(r.integers(0, len(keep) + 1))], int(max(bl.index)) + 7]))
            pathlib.Path('config.json').write_text(json.dumps(cfg))

            def populate(c, script):
                return {'DL': {'Losses': {'Repair': {'DecisionVariables': {'Cost': True, 'Time': True}}}}}, pd.DataFrame({'Units': ['ea'], 'Location': ['1'], 'Direction': ['0'], 'Theta_0': [1]}, index=['c.' + c['GeneralInformation']['kind']])
            with swap(M, 'auto_populate', populate), swap(M, 'substitute_default_path', lambda x: [p.replace(f'PelicunDefault/{method}', d) for p in x]):
                out = S.call(M.regional_sim, 'config.json', 1)
            if wrong:
                S.ensure('incomplete input is refused', isinstance(out, Raised), f'{wrong} {out}')
                S.ensure('an error, not an interruption', out.is_a('ValueError') or out.is_a('KeyError'), f'{wrong} {out}')
                S.ensure('no results of incomplete input', not any(os.path.exists(f'{x}.csv') for x in ('demand', 'damage', 'repair_costs', 'repair_times')))
                S.cover(wrong)
                return
            S.no_raise('calculated', out)
            T = {x: pd.read_csv(f'{x}.csv', index_col=0) for x in ('demand', 'damage', 'repair_costs', 'repair_times')}
        finally:
            os.chdir(here)
    dem = T['demand']
    S.ensure('demands of exactly the selected buildings', list(dem.columns) == [f'{im}-{b}-1' for b in keep for im in ims], f'{list(dem.columns)} {keep}')
    for x in ('damage', 'repair_costs', 'repair_times'):
        S.ensure('results of exactly the selected buildings', list(T[x].index) == keep, f'{x} {list(T[x].index)} {keep}')
    nr = min(nr, size)
    quiet_site = []
    for b in keep:
        for im in ims:
            want = mapped(pts, {i: v.iloc[:nr] for i, v in vals.items()}, bl.loc[b], im, k)[np.arange(size) % nr]
            S.ensure('each building has its own demands in the results', np.allclose(dem[f'{im}-{b}-1'].drop('Units').astype(float), want, rtol=1e-6) and dem[f'{im}-{b}-1']['Units'] == IMS[im])
        q = 'AB'.index(bl.loc[b, 'kind'])
        x = dem[f'{(ims[0], ims[-1])[q]}-{b}-1'].drop('Units').astype(float).to_numpy()
        if np.any(np.abs(x / cap[q] - 1) < 1e-6) or np.any(np.abs(x / cap[q] / 3 - 1) < 1e-6):
            continue
        ds = (x > cap[q]).astype(int) + (x > 3 * cap[q])
        S.ensure('the damage of a building comes from its own demands', np.array_equal(T['damage'].loc[b].to_numpy().astype(int), ds), f'{b} {T["damage"].loc[b].to_numpy()} {ds}')
        S.cover('damaged' if ds.any() else 'building without damage')
        quiet_site.append(not ds.any())
        u = OCC[bl.loc[b, 'OccupancyClass']] if hazus else (1, 100)[q]
        c = T['repair_costs'].loc[b].to_numpy().astype(float)
        S.ensure('the losses of a building come from its own damage', np.allclose(c, np.array([0, u, 3 * u])[ds]) and np.allclose(T['repair_times'].loc[b].to_numpy().astype(float), np.array([0, 2 * u, 5 * u])[ds]), f'{b} {c} {ds}')
        S.cover('costs')
    if len(quiet_site) == len(keep) and all(quiet_site):
        S.cover('nothing damaged')
