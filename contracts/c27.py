"""C27 demand calibration uses the limits and units given for each demand"""
import contextlib
import copy
import warnings
import numpy as np
import pandas as pd
from pelicun import uq
from pelicun.model import demand_model
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite
from contracts.util import *
from contracts import gen

CAL = 'pelicun.model.demand_model.DemandModel.calibrate_model'
FIT = 'pelicun.uq.fit_distribution_to_sample'
LIMITS = ('CensorLower', 'CensorUpper', 'TruncateLower', 'TruncateUpper')
UNITS = {'PFA': ['inps2', 'mps2', 'g'], 'PID': ['rad'], 'PFV': ['inps', 'mps']}
UNITS = {k: [u for u in v if u in gen.REAL] or [None] for k, v in UNITS.items()}
ANY = [None, 'inch', 'ft', 'g', 'ftps2']
ANY = [u for u in ANY if u is None or u in gen.REAL]


class fitted:
    """stands in for the fitting procedure: records what it is given and returns any parameters"""

    def __init__(self, theta):
        self.theta, self.calls = theta, []

    def __enter__(self):
        def fit(raw_sample, distribution, truncation_limits=(np.nan, np.nan), censored_count=0, detection_limits=(np.nan, np.nan), *, multi_fit=False, logger_object=None):
            k = len(raw_sample)
            self.calls.append({'sample': raw_sample.copy(), 'families': list(distribution), 'truncation': np.array(truncation_limits, dtype=object, ndmin=2), 'detection': np.array(detection_limits, dtype=object, ndmin=2), 'censored': censored_count})
            for row in raw_sample:      # the procedure may use the values it is given as its own
                row *= 0
            self.rho = np.eye(k) + 0.125 * (1 - np.eye(k))
            return np.array(self.theta[:k], dtype=float if not any(not isinstance(v, (int, float)) for r in self.theta for v in r) else object), self.rho
        self.s = swap(uq, 'fit_distribution_to_sample', fit)
        self.s.__enter__()
        return self

    def __exit__(self, *a):
        self.s.__exit__(*a)


def factor(u):
    return 1.0 if u is None else gen.REAL[u]


def value(x):
    return float(x) if isinstance(x, (str, int, float)) else x


def settings(config, edp):
    """what the configuration prescribes for a demand, in base units"""
    out = {'family': None, 'sig': None, **{k: None for k in LIMITS}}
    blocks = [config['ALL']] + [v for k, v in config.items() if k != 'ALL' and k == edp[0].split('_')[0]]
    for b in blocks:
        out['family'] = b['DistributionFamily']
        f = factor(b.get('Unit'))
        for k in LIMITS:
            if k in b and b[k] not in ('N/A', 'None', ''):
                out[k] = value(b[k]) * f
        if 'AddUncertainty' in b:
            s = value(b['AddUncertainty'])
            out['sig'] = s * f if b['DistributionFamily'].startswith('normal') else s
    return out


def inside(s, v, a, b):
    return And(*([v > s[a]] if s[a] is not None else []), *([v < s[b]] if s[b] is not None else []))


def calibrate(S, types, n, values, config, theta, real):
    """calibrate a model that has the given values and compare"""
    a = full_assessment(Seed=1)
    cols = pd.MultiIndex.from_tuples([t for t in types], names=['type', 'loc', 'dir'])
    m = a.demand
    m.sample = pd.DataFrame(values, columns=cols, index=range(n))
    m.user_units = pd.Series([u for u in real], index=cols, name='Units')
    before = m.sample.copy()
    units = m.user_units.copy()
    given = copy.deepcopy(config)
    # in symbolic runs save_sample is replaced by its contract (C12): the sample in user units
    alone = swap(type(m), 'save_sample', lambda self_: self_.sample.copy()) if S.symbolic else contextlib.nullcontext()
    with quiet(), alone, fitted(theta) as f:
        r = S.call(m.calibrate_model, config)
    S.no_raise('calibrated', r)
    S.ensure('configuration kept', config == given)
    S.ensure('units kept', units.equals(m.user_units))
    S.ensure('demand sample keeps its labels', m.sample.columns.equals(before.columns) and m.sample.index.equals(before.index))
    for j in range(len(types)):
        for i in range(n):
            S.ensure('demand sample kept', S.exact(m.sample.iloc[i, j], before.iloc[i, j]))
    want = [settings(config, t) for t in types]
    ok = []         # realizations used
    cut = 0
    for i in range(n):
        row = [before.iloc[i, j] for j in range(len(types))]
        c = bool(And(*[inside(w, v, 'CensorLower', 'CensorUpper') for w, v in zip(want, row)]))
        t = bool(And(*[inside(w, v, 'TruncateLower', 'TruncateUpper') for w, v in zip(want, row)]))
        if not c:
            cut += 1
        elif t:
            ok.append(i)
    S.ensure('fitted once', len(f.calls) == 1)
    g = f.calls[0]
    fit = [j for j, w in enumerate(want) if w['family'] != 'empirical']
    emp = [j for j, w in enumerate(want) if w['family'] == 'empirical']
    S.ensure('families of the fitted demands', g['families'] == [want[j]['family'] for j in fit], {'given': g['families']})
    S.ensure('censored realizations counted', int(g['censored']) == cut, {'given': int(g['censored']), 'expected': cut})
    S.ensure('demands and realizations used', g['sample'].shape == (len(fit), len(ok)), {'shape': g['sample'].shape, 'expected': (len(fit), len(ok))})
    for p, j in enumerate(fit):
        for q, i in enumerate(ok):
            S.ensure('realizations within the limits are used', S.exact(g['sample'][p, q], before.iloc[i, j]))
        for e, (name, kinds) in enumerate((('detection', LIMITS[:2]), ('truncation', LIMITS[2:]))):
            for side in range(2):
                v, w = g[name][p, side], want[j][kinds[side]]
                S.ensure(name + ' limit of the demand', pd.isna(v) if w is None else (not pd.isna(v) and S.eq(v, w)), {'demand': types[j], 'limit': v, 'expected': w})
    mp = m.marginal_params
    S.ensure('parameters for each demand', list(mp.index) == list(types) and list(mp.columns) == ['Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper'])
    for j, w in enumerate(want):
        r_ = mp.iloc[j]
        S.ensure('family of the demand', r_['Family'] == w['family'], {'demand': types[j]})
        for k in LIMITS[2:]:
            S.ensure('truncation limit in the model', pd.isna(r_[k]) if w[k] is None else S.eq(r_[k], w[k]), {'demand': types[j], 'limit': r_[k], 'expected': w[k]})
        if j not in fit:
            continue
        t0, t1 = theta[fit.index(j)]
        S.ensure('first parameter', S.exact(r_['Theta_0'], t0))
        inc = 0.0 if w['sig'] is None else w['sig']
        if w['family'] in ('normal', 'normal_cov'):
            # the parameter is a coefficient of variation, the increase a standard deviation
            S.ensure('standard deviation increased', S.near((r_['Theta_1'] * t0) ** 2, (t1 * t0) ** 2 + inc ** 2), {'demand': types[j], 'parameter': r_['Theta_1'], 'fitted': (t0, t1), 'increase': inc})
        else:
            S.ensure('standard deviation increased', S.near(r_['Theta_1'] ** 2, t1 ** 2 + inc ** 2), {'demand': types[j], 'parameter': r_['Theta_1'], 'fitted': (t0, t1), 'increase': inc})
    if emp:
        e = m.empirical_data
        S.ensure('empirical demands kept', e is not None and list(e.columns) == [types[j] for j in emp] and len(e) == len(ok))
        for p, j in enumerate(emp):
            for q, i in enumerate(ok):
                S.ensure('empirical demands have the realizations within the limits', S.exact(e.iloc[q, p], before.iloc[i, j]))
    else:
        S.ensure('no empirical demands', m.empirical_data is None)
    S.ensure('correlation of the fitted demands', list(m.correlation.index) == [types[j] for j in fit] == list(m.correlation.columns) and np.array_equal(m.correlation.to_numpy(dtype=float), f.rho))
    S.ensure('marked as calibrated', m.calibrated)
    if cut:
        S.cover('censored')
    if len(ok) + cut < n:
        S.cover('truncated')
    if emp:
        S.cover('empirical')
    if any(w['sig'] is not None for w in want):
        S.cover('uncertainty')
    if len(config) > 1:
        S.cover('specific')


@contract('C27', 'calibration', [CAL], kind='runtime', runs=400, bound='up to 6 demands of 3 types, up to 20 realizations, up to 4 blocks of settings', covers=['censored', 'truncated', 'empirical', 'uncertainty', 'specific', 'unit only in the specific block', 'restored', 'repeated realizations'])
def calibration(S):
    rng = S.rng
    kinds = ['PFA', 'PID', 'PFV_x', 'PIDR']
    kinds = [kinds[i] for i in sorted(rng.choice(4, int(rng.integers(1, 5)), replace=False))]
    types = []
    for k in kinds:
        for loc in range(1, int(rng.integers(1, 3)) + 1):
            types.append((k, str(loc), '1'))
    if rng.integers(3) == 0:
        types = [types[i] for i in rng.permutation(len(types))]
    n = S.int('n', 4, 20)
    bases = {t: float(rng.uniform(0.3, 3)) for t in types}
    values = np.column_stack([bases[t] * np.exp(rng.normal(0, 0.4, n)) for t in types])
    if n > 6 and rng.integers(4) == 0:  # a realization that is listed several times
        values = values[np.concatenate([np.arange(n - 2), rng.integers(0, n - 2, 2)])]
        S.cover('repeated realizations')
    families = ['normal', 'normal_std', 'normal_cov', 'lognormal', 'empirical']

    def block(general):
        b = {'DistributionFamily': families[int(rng.integers(5))]}
        u = ANY[int(rng.integers(len(ANY)))]
        if rng.integers(2):
            b['Unit'] = u
        f = factor(b.get('Unit'))
        for k in LIMITS:
            if rng.integers(3) == 0:
                low = k.endswith('Lower')
                v = float(rng.uniform(0.05, 0.9) if low else rng.uniform(1.0, 5)) / f
                b[k] = v if rng.integers(2) else repr(v)
                if general and rng.integers(8) == 0:
                    b[k] = 'N/A'
        if rng.integers(2):
            b['AddUncertainty'] = float(rng.uniform(0.05, 1.0)) / (f if b['DistributionFamily'].startswith('normal') else 1)
        if b.get('Unit') and 'DistributionFamily' in b and not general and not any(k in b for k in LIMITS):
            S.cover('unit only in the specific block')
        return b
    config = {'ALL': block(True)}
    names = ['PFA', 'PID', 'PFV', 'PIDR', 'XYZ']
    for k in names:
        if rng.integers(3) == 0:
            config[k] = block(False)
    if all(settings(config, t)['family'] == 'empirical' for t in types):
        config['ALL']['DistributionFamily'] = 'lognormal'
        config = {'ALL': config['ALL']}
    if rng.integers(2):
        keys = list(config)
        config = {k: config[k] for k in [keys[i] for i in rng.permutation(len(keys))]}
        S.cover('restored')
    S.drawn['config'], S.drawn['types'] = config, types
    theta = [[float(rng.uniform(0.2, 4)) * (-1) ** int(rng.integers(2)), float(rng.uniform(0.05, 1))] for _ in types]
    calibrate(S, types, n, values, config, theta, ['unitless'] * len(types))


@contract('C27', 'limits', [CAL], kind='bounded', modules=[demand_model], runs=60, max_paths=20000,
          bound='two demand types, 2 realizations of any values, one or two limits of any value given in general or for a type, with or without units', covers=['censored', 'truncated', 'specific', 'uncertainty'])
def limits(S):
    types = [('PFA', '1', '1'), ('PID', '1', '1')]
    n = S.size('n', 1, 6, sym=(2, 2))
    values = np.empty((n, 2), dtype=object)
    for i in range(n):
        for j in range(2):
            values[i, j] = S.real(f'v{i}_{j}', 0.1, 5)
    if not S.symbolic:
        values = values.astype(float)
    fam = S.case('families', [('normal', 'lognormal'), ('lognormal', 'empirical'), ('normal_std', 'normal_cov')])
    config = {'ALL': {'DistributionFamily': fam[0]}, 'PID': {'DistributionFamily': fam[1]}}
    first, second = S.case('limits', [('CensorLower', 'TruncateUpper'), ('CensorUpper', None), ('TruncateLower', 'TruncateLower'), (None, 'CensorUpper'), ('CensorLower', 'CensorLower')])
    unit = S.case('unit', [None, 'mm'])
    other = S.case('other unit', [None, 'mm'])
    for b, lim, u in (('ALL', first, unit), ('PID', second, other)):
        if u:
            config[b]['Unit'] = u
        if lim:
            config[b][lim] = S.real(f'{b} {lim}', 0.2, 4) / (0.001 if u else 1)
            S.require(config[b][lim] > 0)
    if S.case('uncertainty', ['yes', 'no']) == 'yes':
        config['ALL']['AddUncertainty'] = S.real('increase', 0.1, 2)
    theta = [[S.real('t0', 0.1, 4), S.real('t1', 0.1, 2)], [S.real('t2', 0.1, 4), S.real('t3', 0.1, 2)]]
    calibrate(S, types, n, values, config, theta, ['unitless'] * 2)


@contract('C27', 'fitting', [FIT], kind='runtime', runs=120, bound='up to 4 demands, up to 30 realizations, without limits; limits kept with limits', covers=['normal', 'lognormal', 'integers', 'limits'])
def fitting(S):
    rng = S.rng
    k, n = S.int('k', 1, 4), S.int('n', 5, 30)
    fams = [str(rng.choice(['normal', 'normal_std', 'normal_cov', 'lognormal'])) for _ in range(k)]
    data = np.exp(rng.normal(0, 0.4, (k, n))) * rng.uniform(0.5, 20, (k, 1))
    integers = bool(rng.integers(4) == 0)
    if integers:
        data = np.round(data * 10).astype(int) + 1
        S.cover('integers')
    given = data.copy()
    limited = bool(rng.integers(4) == 0)
    kw = {}
    S.drawn['families'] = fams
    if limited:
        tr = np.full((k, 2), np.nan)
        de = np.full((k, 2), np.nan)
        for j in range(k):
            if rng.integers(2):
                tr[j, 0] = data[j].min() * 0.5
            if rng.integers(2):
                de[j, 1] = data[j].max() * 1.5
        kw = {'truncation_limits': tr, 'detection_limits': de, 'censored_count': 0}
        keep = tr.copy(), de.copy()
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = S.call(uq.fit_distribution_to_sample, given, fams if k > 1 or rng.integers(2) else fams[0], **kw)
    if limited:
        S.ensure('limits kept', np.array_equal(tr, keep[0], equal_nan=True) and np.array_equal(de, keep[1], equal_nan=True))
        S.cover('limits')
        if isinstance(r, Raised):       # the optimization may fail for some samples
            S.refused('failure reported', r, 'ValueError')
        return
    S.no_raise('fitted', r)
    theta, rho = r
    std = np.empty((k, n))
    for j, f in enumerate(fams):
        x = np.log(data[j]) if f == 'lognormal' else data[j].astype(float)
        mu, sig = float(np.mean(x)), float(np.std(x))
        if sig == 0:
            S.stop()
        std[j] = (x - mu) / sig
        S.ensure('central value of the sample', S.near(theta[j][0], np.exp(mu) if f == 'lognormal' else mu), {'family': f})
        S.ensure('dispersion of the sample', S.near(theta[j][1], sig / abs(mu) if f in ('normal', 'normal_cov') else sig), {'family': f})
        S.cover('lognormal' if f == 'lognormal' else 'normal')
    want = np.atleast_2d(np.corrcoef(std))
    if np.linalg.cond(want) < 1e6:
        for i in range(k):
            for j in range(k):
                S.ensure('correlation of the sample', abs(rho[i][j] - want[i][j]) < 1e-3, {'given': rho[i][j], 'expected': want[i][j]})
