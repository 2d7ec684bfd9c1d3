"""C32 sampled values follow the distributions specified for them"""
import warnings
import numpy as np
import pandas as pd
from scipy import stats
from pelicun import uq
from pelicun.model import asset_model, damage_model, demand_model
from pyvc import arrays
from pyvc.contract import contract, Raised
from contracts import gen
from contracts.util import *

DEM = 'pelicun.model.demand_model.DemandModel.'
AST = 'pelicun.model.asset_model.AssetModel.'
DSM = 'pelicun.model.damage_model.DamageModel_DS.'
UQ = 'pelicun.uq.'
FAMILIES = ['normal', 'normal_cov', 'normal_std', 'lognormal', 'uniform', None, 'deterministic']


def draw(r, scale, families=FAMILIES, truncate=True):
    """a specification in the units of the table"""
    f = families[int(r.integers(len(families)))]
    m = float(scale * r.uniform(0.3, 3))
    s = {'Family': f, 'Theta_0': m}
    if f in ('normal', 'normal_cov', 'lognormal'):
        s['Theta_1'] = float(r.uniform(0.1, 0.8))
    elif f == 'normal_std':
        s['Theta_1'] = float(m * r.uniform(0.1, 0.8))
    elif f == 'uniform':
        s['Theta_1'] = float(m * r.uniform(1.2, 4))
    if truncate and f not in (None, 'deterministic'):
        hi = (s['Theta_1'] if f == 'uniform' else m)
        if r.random() < 0.35:
            s['TruncateLower'] = float(m * r.uniform(1.0, 1.1) if f == 'uniform' else m * r.uniform(0.3, 0.95))
        elif f != 'uniform' and f != 'lognormal' and r.random() < 0.4:
            s['TruncateLower'] = 0.0
        if r.random() < 0.35:
            s['TruncateUpper'] = float(hi * r.uniform(0.9, 0.99) if f == 'uniform' else hi * r.uniform(1.05, 2))
    return s


def reference(s, k=1.0):
    """distribution function and its inverse, in base units, of a specification; None when it is a constant"""
    f, t0, t1 = s['Family'], s['Theta_0'] * k, s.get('Theta_1')
    if f in (None, 'deterministic'):
        return None
    d = {'normal': lambda: stats.norm(t0, abs(t0) * t1), 'normal_cov': lambda: stats.norm(t0, abs(t0) * t1), 'normal_std': lambda: stats.norm(t0, t1 * k),
         'lognormal': lambda: stats.lognorm(t1, scale=t0), 'uniform': lambda: stats.uniform(t0, t1 * k - t0)}[f]()
    lo = d.cdf(s['TruncateLower'] * k) if s.get('TruncateLower') is not None else 0.0
    hi = d.cdf(s['TruncateUpper'] * k) if s.get('TruncateUpper') is not None else 1.0
    return (lambda x: (d.cdf(x) - lo) / (hi - lo)), (lambda u: d.ppf(lo + u * (hi - lo)))


def follows(S, label, v, s, k=1.0, f=None):
    """one realization at the middle of each of n equally likely strata of the distribution"""
    v = np.asarray(v, dtype=float)
    n = len(v)
    ref = reference(s, k)
    want = np.full(n, s['Theta_0'] * k) if ref is None else ref[1]((np.arange(n) + 0.5) / n)
    if f is not None:
        want = want * f
    S.ensure(label, bool(np.allclose(np.sort(v), want, rtol=1e-6, atol=0)), {'specified': s, 'factor': k, 'sampled': np.sort(v)[:6], 'expected': want[:6]})
    S.cover('constant' if ref is None else 'truncated' if 'TruncateLower' in s or 'TruncateUpper' in s else 'untruncated')


def frame(rows, names):
    """table with the columns that occur, in the order given, sometimes with columns that are empty"""
    cols = [c for c in names if any(c in x for x in rows)]
    return pd.DataFrame([[x.get(c, np.nan) for c in cols] for x in rows], columns=cols).astype(object)


COL = ['Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper']


@contract('C32', 'demands', [DEM + 'load_model', DEM + '_create_RVs', DEM + 'generate_sample', UQ + 'rv_class_map'], kind='runtime', runs=150, bound='up to 8 demands of 5 families with and without limits, 5 to 40 realizations, up to 2 models in the same object',
          covers=['constant', 'truncated', 'untruncated', 'empty column', 'calculated again'])
def demands(S):
    r = S.rng
    n = S.int('n', 5, 40)
    units = {'PFA': ['g', 'mps2', 'ftps2', 'inchps2'], 'PID': ['rad', 'unitless'], 'PFV': ['inps', 'mps', 'cmps'], 'SA_1.0': ['g', 'cmps2']}
    units = {k: [u for u in v if u in gen.REAL] for k, v in units.items()}
    pool = [(t, str(l), str(d)) for t in units for l in range(12) for d in (1, 2)]
    a = full_assessment(Seed=S.int('rng', 1, 10 ** 6))
    a.options.sampling_method = 'LHS_midpoint'
    calls = S.int('calls', 1, 2)
    if calls == 2:
        S.cover('calculated again')
    for call in range(calls):
        if call:
            n = S.int('n of the second', 5, 40)
        edps = [pool[i] for i in r.permutation(len(pool))[:S.int(f'demands {call}', 1, 8)]]
        spec = {e: {**draw(r, 1.0), 'Units': str(r.choice(units[e[0]]))} for e in edps}
        t = frame(list(spec.values()), ['Units', *COL])
        t.index = pd.MultiIndex.from_tuples(edps)
        if r.random() < 0.3 and 'Theta_2' not in t:
            t['Theta_2'] = np.nan
            S.cover('empty column')
        if r.random() < 0.3:
            t = t[list(r.permutation(t.columns))]
        S.drawn['spec'] = {'-'.join(k): v for k, v in spec.items()}
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            S.no_raise('model loaded', S.call(a.demand.load_model, {'marginals': t}))
            S.no_raise('sample generated', S.call(a.demand.generate_sample, {'SampleSize': n, 'PreserveRawOrder': False}))
    s = a.demand.sample
    S.ensure('every demand is sampled', sorted(map(tuple, s.columns)) == sorted(edps) and len(s) == n)
    for e in edps:
        follows(S, 'demands follow their distribution', s[e], spec[e], gen.REAL[spec[e]['Units']])


@contract('C32', 'component quantities', [AST + 'load_cmp_model', AST + '_create_cmp_RVs', AST + 'generate_cmp_sample', UQ + 'rv_class_map'], kind='runtime', runs=150, bound='up to 6 component types, 1 to 4 places, 5 to 40 realizations, up to 2 models in the same object',
          covers=['constant', 'truncated', 'untruncated', 'empty column', 'calculated again'])
def quantities(S):
    r = S.rng
    n = S.int('n', 5, 40)
    a = full_assessment(Seed=S.int('rng', 1, 10 ** 6))
    a.options.sampling_method = 'LHS_midpoint'
    calls = S.int('calls', 1, 2)
    if calls == 2:
        S.cover('calculated again')
    for call in range(calls):
        if call:
            n = S.int('n of the second', 5, 40)
        stories = S.int(f'stories {call}', 1, 3)
        spec = {}
        for c in ['A', 'B.10', 'B.1', 'C_1', 'z', 'B.10.1'][:S.int(f'types {call}', 1, 6)]:
            spec[c] = {**draw(r, 10.0), 'Units': str(r.choice(['ea', 'ft2', 'm', 'ft', 'm2'])), 'Location': str(r.choice(['1', 'all', 'top', '0', 'roof'])), 'Direction': str(r.choice(['0', '1', '1,2']))}
        ids = [list(spec)[i] for i in r.permutation(len(spec))]
        t = frame([spec[c] for c in ids], ['Units', 'Location', 'Direction', *COL])
        t.index = ids
        if r.random() < 0.3 and 'Theta_2' not in t:
            t['Theta_2'] = np.nan
            S.cover('empty column')
        if 'Family' in t and r.random() < 0.3:
            t['Blocks'] = 1
        S.drawn['spec'] = spec
        a.stories = stories
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            S.no_raise('model loaded', S.call(a.asset.load_cmp_model, {'marginals': t}))
            S.no_raise('sample generated', S.call(a.asset.generate_cmp_sample, n))
    q = a.asset.cmp_sample
    S.ensure('every component is sampled', {c[0] for c in q.columns} == set(ids) and len(q) == n)
    for c in q.columns:
        follows(S, 'quantities follow their distribution', q[c], spec[c[0]], gen.REAL[spec[c[0]]['Units']])


def fragilities(S, r, k, stories):
    """component types with limit states that have their own families and limits"""
    out = {}
    ids = ['B.10.31.001', 'B.20.22.031', 'C_30', 'D.10.14.011', 'B.10']
    for c in ids[:k]:
        typ = list(gen.DEM)[int(r.integers(len(gen.DEM)))]
        _, u, scale = gen.DEM[typ]
        top = int(r.choice([1, 2, 3, 6, 11]))
        ls = {}
        for i in range(1, top + 1):
            if i > 1 and r.random() < (0.2 if top < 4 else 0.6):
                continue
            ls[i] = draw(r, scale)
            if r.random() < 0.4:
                w = r.dirichlet([1] * int(r.integers(2, 5))).round(3)
                w[-1] = 1 - w[:-1].sum()
                if np.all(w > 0):
                    ls[i]['w'] = [float(x) for x in w]
        t = gen.DEM[typ][0]
        out[c] = {'demand': typ, 'unit': u if r.random() < 0.7 else {'g': 'mps2', 'inps': 'mps'}.get(u, u), 'offset': 1 if t in ('PFA', 'PFV') else 0, 'ls': ls,
                  'Location': '0' if t == 'PGA' else str(r.choice(['1', 'all'])), 'Direction': str(r.choice(['1', '1,2'])), 'Blocks': int(r.integers(1, 4))}
        if out[c]['unit'] != u:
            g = gen.REAL[u] / gen.REAL[out[c]['unit']]
            for x in ls.values():
                for key in ('Theta_0', 'TruncateLower', 'TruncateUpper', *(['Theta_1'] if x['Family'] in ('normal_std', 'uniform') else [])):
                    if key in x:
                        x[key] *= g
    return out


@contract('C32', 'capacities', [DSM + '_create_dmg_RVs', DSM + '_generate_dmg_sample', DSM + 'obtain_ds_sample', 'pelicun.model.damage_model.DamageModel_Base.convert_damage_parameter_units', UQ + 'rv_class_map'], kind='runtime', runs=150,
          bound='up to 5 component types with limit states numbered up to 11, 3 blocks, 2 stories, 5 to 25 realizations, calculated up to twice', covers=['calculated again', 'constant', 'truncated', 'untruncated', 'perfectly correlated', 'weights', 'single', 'many limit states', 'empty column'])
def capacities(S):
    r = S.rng
    n, stories = S.int('n', 5, 25), S.int('stories', 1, 2)
    C = fragilities(S, r, S.int('types', 1, 5), stories)
    S.drawn['components'] = C
    top = max(max(c['ls']) for c in C.values())
    if top > 4:
        S.cover('many limit states')
    order = [int(i) + 1 for i in r.permutation(top)] if r.random() < 0.3 else range(1, top + 1)
    extra = ['Theta_2'] if r.random() < 0.3 else []
    if extra:
        S.cover('empty column')
    rows = {}
    for cid, c in C.items():
        x = {('Incomplete', ''): 0, ('Demand', 'Type'): c['demand'], ('Demand', 'Unit'): c['unit'], ('Demand', 'Offset'): c['offset'], ('Demand', 'Directional'): 1}
        for i in order:
            p = c['ls'].get(i, {})
            for k in [*COL, *extra]:
                x[f'LS{i}', k] = p.get(k, np.nan)
            x[f'LS{i}', 'DamageStateWeights'] = ' | '.join(map(str, p['w'])) if 'w' in p else np.nan
        rows[cid] = x
    t = pd.DataFrame.from_dict(rows, orient='index').astype(object)
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    a = full_assessment(Seed=S.int('rng', 1, 10 ** 6))
    a.options.sampling_method = 'LHS_midpoint'
    a.stories = stories
    gen.demand(S, a, stories, n)
    m = pd.DataFrame({'Units': 'ea', 'Location': [c['Location'] for c in C.values()], 'Direction': [c['Direction'] for c in C.values()], 'Theta_0': 1.0, 'Blocks': [c['Blocks'] for c in C.values()]}, index=list(C))
    with quiet(), gen.record() as rec, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a.asset.load_cmp_model({'marginals': m})
        a.asset.generate_cmp_sample(n)
        S.no_raise('parameters loaded', S.call(a.damage.load_model_parameters, [t], set(C)))
        S.no_raise('calculated', S.call(a.damage.calculate, None, S.int('batch', 1, 20)))
    if S.int('calls', 1, 2) == 2:
        n = S.int('n of the second', 5, 25)
        gen.demand(S, a, stories, n)
        with quiet(), gen.record() as rec, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            a.asset.generate_cmp_sample(n)
            S.no_raise('calculated again', S.call(a.damage.calculate, None, S.int('batch of the second', 1, 20)))
        S.cover('calculated again')
    want = {(*map(str, g), str(b + 1), str(i)) for g in a.asset.cmp_sample.columns for b in range(C[g[0]]['Blocks']) for i in C[g[0]]['ls']}
    S.ensure('a capacity for every limit state of every block', set(rec.cap) == want, f'{sorted(set(rec.cap) ^ want)[:4]}')
    S.ensure('damage states for every limit state of every block', set(rec.lsds) == want)
    levels = {}
    for key, v in rec.cap.items():
        c = C[key[0]]
        s = c['ls'][int(key[5])]
        follows(S, 'capacities follow the distribution of their limit state', v, s, gen.REAL[c['unit']])
        ref = reference(s, gen.REAL[c['unit']])
        if ref is not None:
            u = ref[0](v)
            if key[:5] in levels:
                S.ensure('capacities of one block are perfectly correlated', bool(np.allclose(u, levels[key[:5]], atol=1e-6)), f'{key}')
                S.cover('perfectly correlated')
            levels.setdefault(key[:5], u)
        first, w = 1, None
        for i in sorted(c['ls']):
            w = c['ls'][i].get('w')
            if i == int(key[5]):
                break
            first += len(w or [1])
        ds = np.sort(rec.lsds[key].astype(float))
        mid = (np.arange(n) + 0.5) / n
        if w is None:
            S.cover('single')
            S.ensure('the damage state of the limit state', bool(np.all(ds == first)), f'{key} {ds}')
        else:
            S.cover('weights')
            edges = np.cumsum(w)
            if np.min(np.abs(mid[:, None] - edges[None, :])) > 1e-9:
                S.ensure('damage states in the specified proportions', bool(np.array_equal(ds, first + np.searchsorted(edges, mid))), f'{key} {ds} {w}')


@contract('C32', 'consequences', ['pelicun.model.loss_model.RepairModel_DS._create_DV_RVs', 'pelicun.model.loss_model.RepairModel_LF._create_DV_RVs', UQ + 'rv_class_map'], kind='runtime', runs=150,
          bound='up to 4 component types at up to 2 places, 3 damage states, up to 4 decision variables, 5 to 40 realizations', covers=['damage', 'function', 'constant', 'truncated', 'interpolated'])
def consequences(S):
    r = S.rng
    n = S.int('n', 5, 40)
    types = [str(x) for x in r.permutation(['A', 'Cost', 'Time.1', 'B_1', 'B.10.31'])[:S.int('types', 1, 4)]]
    function = S.case('kind', ['damage', 'function']) == 'function'
    S.cover('function' if function else 'damage')
    units = {'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': str(r.choice(['kg', 'lb'])), 'Energy': 'MJ'}
    dvs = [str(x) for x in r.permutation(list(units))[:S.int('dvs', 1, 4)]]
    a = full_assessment(Seed=S.int('rng', 1, 10 ** 6), RepairCostAndTimeCorrelation=0.0)
    a.options.sampling_method = 'LHS_midpoint'
    a.options.eco_scale['AcrossFloors'] = bool(r.integers(2))
    a.loss.decision_variables = tuple(dvs)
    places = {c: [[('1', '1', '0')], [('1', '1', '0'), ('2', '1', '0')], [('1', '1', '0'), ('1', '2', '0')]][int(r.integers(3))] for c in types}
    cols = pd.MultiIndex.from_tuples([(c, *g) for c in types for g in places[c]], names=['cmp', 'loc', 'dir', 'uid'])
    a.asset.cmp_sample = pd.DataFrame(1.0, index=range(n), columns=cols)
    a.asset.cmp_marginal_params = pd.DataFrame({'Theta_0': 1.0, 'Blocks': 1}, index=cols)
    a.demand.sample = pd.DataFrame({('PFA', str(i), str(j)): np.full(n, 2.0 * gen.REAL['g']) for i in range(3) for j in (1, 2)})
    a.demand.sample.columns.names = ['type', 'loc', 'dir']
    fam = ['normal', 'lognormal', None]
    spec, rows = {}, {}
    for c in types:
        for v in dvs:
            if function:
                s = draw(r, 1.0, fam, False)
                s['Theta_0'] = 1.0
                x = {('Demand', 'Type'): 'Peak Floor Acceleration', ('Demand', 'Unit'): 'g', ('Demand', 'Offset'): 0, ('Demand', 'Directional'): 1, ('DV', 'Unit'): units[v]}
                y = float(r.uniform(1, 100))
                x['LossFunction', 'Theta_0'] = f'0.0,{2 * y}|0.0,4.0'
                spec[c, v, None] = s, y
                S.cover('interpolated')
                for k in ('Family', 'Theta_1'):
                    x['LossFunction', k] = s.get(k, np.nan)
            else:
                x = {('Incomplete', ''): 0, ('Quantity', 'Unit'): '1 EA', ('DV', 'Unit'): units[v]}
                for i in (1, 2, 3):
                    s = draw(r, 10.0, fam, False)
                    th, y = s['Theta_0'], 1.0
                    if r.random() < 0.4:
                        th, y = f'{2 * s["Theta_0"]},{s["Theta_0"]}|1,2' if not r.integers(2) else f'{s["Theta_0"]},{s["Theta_0"]}|0.5,9', None
                        s['Theta_0'] = float(th.split(',')[0])
                        S.cover('interpolated')
                    spec[c, v, str(i)] = s, 1.0
                    x[f'DS{i}', 'Theta_0'] = th
                    for k in ('Family', 'Theta_1'):
                        x[f'DS{i}', k] = s.get(k, np.nan)
            rows[c, v] = x
    # cumulative quantities stay at one when the damage states are not added up
    a.options.eco_scale['AcrossFloors'] = False
    a.options.eco_scale['AcrossDamageStates'] = False
    if not function:
        # one place per location for the interpolated consequences
        places = {c: [g for g in p if g[1] == '1'] for c, p in places.items()}
        a.damage.ds_model.sample = pd.DataFrame({(c, *g, d): np.full(n, 1.0) for c in types for g in places[c] for d in '0123'}).rename_axis(columns=['cmp', 'loc', 'dir', 'uid', 'ds'])
    S.drawn.update(types=types, places=places, dvs=dvs, spec=spec)
    t = pd.DataFrame.from_dict(rows, orient='index').astype(object)
    t.index = pd.MultiIndex.from_tuples(list(rows))
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a.loss.add_loss_map(pd.DataFrame({'Repair': types}, index=types))
        S.no_raise('parameters loaded', S.call(a.loss.load_model_parameters, [t]))
        S.no_raise('calculated', S.call(a.loss.calculate))
    L = (a.loss.lf_model if function else a.loss.ds_model).sample
    count = 0
    for col in L.columns:
        col = tuple(col)
        dv, c = col[0], col[1]
        ds = None if function else col[3]
        s, y = spec[c, dv, ds]
        if s['Family'] is not None:
            s = {**s, 'TruncateLower': 0.0}
        follows(S, 'consequences follow their distribution', L[col], s, 1.0, y * gen.REAL[units[dv]])
        count += 1
    S.ensure('every consequence is sampled', count == sum(map(len, places.values())) * len(dvs) * (1 if function else 3), f'{list(L.columns)}')


def parameters(S, i, f):
    """any parameters and limits of a variable of family f"""
    p = {'Family': f, 'Theta_0': S.real(f't0_{i}', lo=0.001, scale=3)}
    if f not in (None, 'deterministic'):
        p['Theta_1'] = S.real(f't1_{i}', gt=0.0, scale=1)
        lim = S.case(f'limits {i}', ['none', 'lower', 'upper', 'both', 'zero'])
        if lim == 'zero':
            p['TruncateLower'] = 0.0
        if lim in ('lower', 'both'):
            p['TruncateLower'] = S.real(f'lo_{i}', gt=0.0, scale=1)
        if lim in ('upper', 'both'):
            p['TruncateUpper'] = S.real(f'hi_{i}', gt=0.0, scale=9)
    return p


def nan(x):
    return isinstance(x, float) and x != x


def same_variable(S, label, rv, p, anchor=None):
    """the variable is the one that its own parameters define"""
    f = p['Family']
    th = [p[k] for k in ('Theta_0', 'Theta_1') if k in p]
    a = np.empty(len(th), dtype=object if S.symbolic else float)
    a[:] = th
    b = np.empty(2, dtype=object if S.symbolic else float)
    b[:] = [p.get('TruncateLower', np.nan), p.get('TruncateUpper', np.nan)]
    if S.symbolic:
        a, b = a.view(arrays.OArr), b.view(arrays.OArr)
    want = uq.rv_class_map(f)(name='reference', theta=a, truncation_limits=b)
    S.ensure(label + ': family', type(rv) is type(want), f'{type(rv)} {p}')
    if f in (None, 'deterministic'):
        S.ensure(label + ': value', S.eq(np.asarray(rv.theta).flat[0], th[0]))
        return
    x, y = list(np.asarray(rv.theta).flat), list(np.asarray(want.theta).flat)
    for k in range(2):
        S.ensure(label + ': parameters', S.eq(x[k], y[k]), {'given': p, 'used': x})
    x, y = list(np.asarray(rv.truncation_limits).flat), list(np.asarray(want.truncation_limits).flat)
    for k in range(2):
        S.ensure(label + ': limits', nan(x[k]) and nan(y[k]) or not (nan(x[k]) or nan(y[k])) and S.eq(x[k], y[k]), {'given': p, 'used': x})


@contract('C32', 'capacity variables', [DSM + '_create_dmg_RVs', UQ + 'rv_class_map'], kind='bounded', modules=[damage_model, uq], runs=100, max_paths=40000,
          bound='one component type with two limit states at one place with one or two blocks, any parameters and limits; concrete: the same with random values', covers=['normal', 'lognormal', 'uniform', 'normal_std', 'deterministic', 'correlated'])
def capacity_variables(S):
    ids = S.case('limit states', [('1', '2'), ('2', '10'), ('10', '9')])
    blocks = S.case('blocks', [1, 2])
    fams = S.case('families', [('normal', 'lognormal'), ('lognormal', 'normal'), ('lognormal', 'uniform'), ('normal_std', None), ('uniform', 'normal_std'), (None, 'lognormal')])
    p = {i: parameters(S, i, f) for i, f in zip(ids, fams)}
    m = damage_model.DamageModel_DS(base_assessment())
    cols = [(f'LS{i}', k) for i in ids for k in COL]
    m.damage_params = pd.DataFrame([[p[l[2:]].get(k, np.nan) for l, k in cols]], index=['B.10'], columns=pd.MultiIndex.from_tuples(cols), dtype=object)
    pgb = pd.DataFrame({'Blocks': [blocks]}, index=pd.MultiIndex.from_tuples([('B.10', '1', '2', '0')], names=['cmp', 'loc', 'dir', 'uid']))
    r = S.call(m._create_dmg_RVs, pgb)
    S.no_raise('variables are defined', r)
    cap = r[0].RV
    want = {f'FRG-B.10-1-2-0-{b + 1}-{i}': (b, i) for b in range(blocks) for i in ids}
    S.ensure('one variable for each limit state of each block', set(cap) == set(want) and len(r[1].RV) == len(want))
    first = sorted(ids, key=int)[0]
    for name, (b, i) in want.items():
        same_variable(S, 'capacity', cap[name], p[i])
        S.cover('deterministic' if p[i]['Family'] is None else p[i]['Family'])
        lead = cap[f'FRG-B.10-1-2-0-{b + 1}-{first}']
        S.ensure('limit states of a block share the level', cap[name].anchor is lead)
        S.cover('correlated')


@contract('C32', 'quantity and demand variables', [AST + '_create_cmp_RVs', DEM + '_create_RVs', UQ + 'rv_class_map'], kind='bounded', modules=[asset_model, demand_model, uq], runs=100, max_paths=40000,
          bound='two components or demands, any parameters and limits; concrete: the same with random values', covers=['quantities', 'demands', 'normal', 'lognormal', 'uniform', 'normal_std', 'deterministic'])
def model_variables(S):
    kind = S.case('kind', ['quantities', 'demands'])
    fams = S.case('families', [('normal', 'lognormal'), ('lognormal', 'normal'), ('uniform', 'normal_std'), (None, 'lognormal'), ('normal_std', None)])
    p = [parameters(S, i, f) for i, f in enumerate(fams)]
    rows = [[q.get(k, np.nan) for k in COL] for q in p]
    S.cover(kind)
    if kind == 'quantities':
        m = asset_model.AssetModel(base_assessment())
        keys = [('A', '1', '1', '0'), ('A.1', '2', '0', '1')]
        m.cmp_marginal_params = pd.DataFrame(rows, index=pd.MultiIndex.from_tuples(keys, names=['cmp', 'loc', 'dir', 'uid']), columns=COL, dtype=object)
        S.no_raise('variables are defined', S.call(m._create_cmp_RVs))
        rvs = m._cmp_RVs.RV
        names = ['CMP-' + '-'.join(k) for k in keys]
    else:
        m = demand_model.DemandModel(base_assessment())
        keys = [('PFA', '1', '1'), ('PID', '2', '1')]
        m.marginal_params = pd.DataFrame(rows, index=pd.MultiIndex.from_tuples(keys, names=['type', 'loc', 'dir']), columns=COL, dtype=object)
        S.no_raise('variables are defined', S.call(m._create_RVs))
        rvs = m._RVs.RV
        names = ['EDP-' + '-'.join(k) for k in keys]
    S.ensure('one variable for each row', set(rvs) == set(names))
    for name, q in zip(names, p):
        same_variable(S, kind, rvs[name], q)
        S.ensure('independent', rvs[name].anchor is rvs[name] or rvs[name].anchor is None)
        S.cover('deterministic' if q['Family'] is None else q['Family'])
