"""C07 correlations attach to the variables they were specified for"""
import itertools
import warnings
import numpy as np
import pandas as pd
import z3
import scipy.stats
from scipy.stats import norm
from pelicun import uq
from pyvc import core, arrays
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite
from contracts.util import *
from contracts import gen

SET = 'pelicun.uq.RandomVariableSet.'
NAMES = ['b', 'a', 'd', 'c', 'B', 'a1', '10', '9', 'EDP-PFA-1-1', 'EDP-PFA-10-1', 'EDP-PFA-2-1', 'x']


class lower_factor:
    """contract of scipy.linalg.cholesky(A, lower=True): L lower triangular with L L' = A"""

    def __init__(self, S):
        self.S, self.given, self.factor = S, None, None

    def __call__(self, a, lower=False, **k):
        c = core.ctx()
        n = len(a)
        self.S.ensure('lower factor requested', lower is True)
        L = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                L[i, j] = core.SReal(z3.Real(c.fresh(f'L{i}{j}'))) if j <= i else 0.0
        for i in range(n):
            for j in range(i + 1):
                t = sum((L[i, k] * L[j, k] for k in range(1, j + 1)), L[i, 0] * L[j, 0])
                c.assume(t == a[i, j])
        self.given, self.factor = a, L
        return arrays.obj_array([list(r) for r in L]) if False else L.view(arrays.OArr)


def matrix(S, k):
    r = np.empty((k, k), dtype=object)
    for i in range(k):
        r[i, i] = 1.0
        for j in range(i):
            r[i, j] = r[j, i] = S.real(f'rho{i}{j}', gt=-1.0, lt=1.0)
    return r


@contract('C07', 'coefficients', [SET + '__init__', SET + 'Rho', SET + 'size', SET + 'RV'], kind='bounded', modules=[uq], runs=150,
          bound='up to 4 variables in every order with any coefficients, every subset in every order', covers=['one', 'sorted', 'reordered', 'subset'])
def coefficients(S):
    k = S.size('k', 1, 7, sym=(1, 4))
    if S.symbolic:
        names = S.case('names', [list(p) for p in itertools.permutations(['b', 'a', 'C', '10'][:k])])
    else:
        names = [NAMES[i] for i in S.rng.permutation(len(NAMES))[:k]]
    rho = matrix(S, k)
    given = rho.view(arrays.OArr) if S.symbolic else rho.astype(float)
    keep = given.copy()
    rvs = [uq.UniformRandomVariable(n, np.array([0.0, 1.0])) for n in names]
    order = list(rvs)
    s = S.call(uq.RandomVariableSet, 'set', rvs, given)
    S.no_raise('a set is defined', s)
    S.ensure('all variables in the set', s.size == k and sorted(s.RV) == sorted(names) and all(s.RV[n] is v for n, v in zip(names, order)))
    S.ensure('variables know their set', all(v.RV_set is s for v in order) and rvs == order)
    for i in range(k):
        for j in range(k):
            S.ensure('the matrix given is kept', S.exact(given[i, j], keep[i, j]))
    full = s.Rho()
    rows = list(s.RV)
    for i in range(k):
        for j in range(k):
            S.ensure('coefficient of the pair', S.exact(full[i][j], keep[names.index(rows[i]), names.index(rows[j])]), {'pair': (rows[i], rows[j])})
    S.cover('one' if k == 1 else 'sorted' if names == sorted(names) else 'reordered')
    if S.symbolic:
        subs = S.case('subset', [list(p) for m in range(1, k + 1) for p in itertools.permutations(sorted(names), m)])
    else:
        subs = [names[i] for i in S.rng.permutation(k)[:int(S.rng.integers(1, k + 1))]]
    sub = S.call(s.Rho, subs)
    S.no_raise('a subset', sub)
    S.ensure('size of the subset', np.shape(sub) == (len(subs), len(subs)))
    for i, a in enumerate(subs):
        for j, b in enumerate(subs):
            S.ensure('coefficient of the pair in the subset', S.exact(sub[i][j], keep[names.index(a), names.index(b)]), {'pair': (a, b)})
    if subs != sorted(subs):
        S.cover('subset')


@contract('C07', 'scores', [SET + 'apply_correlation', SET + '__init__'], kind='bounded', modules=[uq], runs=60,
          bound='2-3 variables in every order with any coefficients, any sample size and levels', covers=['transformed'])
def scores(S):
    """the scores of the variables are a factor of the matrix times the uncorrelated scores"""
    k = S.size('k', 2, 5, sym=(2, 3))
    names = S.case('names', [list(p) for p in itertools.permutations(['b', 'a', 'c'][:k])]) if S.symbolic else [NAMES[i] for i in S.rng.permutation(len(NAMES))[:k]]
    sp = S.space('n', lo=8, hi=30)
    rvs = {n: uq.UniformRandomVariable(n, np.array([0.0, 1.0])) for n in names}
    other = uq.UniformRandomVariable('other', np.array([0.0, 1.0]))
    if S.symbolic:
        rho = matrix(S, k)
        lf = lower_factor(S)
        with swap(uq, 'cholesky', lf):
            s = S.call(uq.RandomVariableSet, 'set', [rvs[n] for n in names], rho.view(arrays.OArr))
            u = {n: S.array(f'u_{n}', sp, gt=0.0, lt=1.0) for n in [*names, 'other']}
            for n in names:
                rvs[n].uni_sample = u[n]
            other.uni_sample = u['other']
            r = S.call(s.apply_correlation)
        S.no_raise('correlation is imposed', r)
        rows = list(s.RV)
        L = lf.factor
        z = [core.norm_ppf(u[n].data.flat[0], 0.0, 1.0) for n in rows]
        for i, n in enumerate(rows):
            t = z[0] * L[i, 0]
            for j in range(1, i + 1):
                t = t + z[j] * L[i, j]
            S.each('combination of the uncorrelated scores', lambda x, t=t: S.eq(x, core.norm_cdf(t, 0.0, 1.0)), rvs[n].uni_sample)
            for j, m in enumerate(rows):
                q = sum((L[i, x] * L[j, x] for x in range(1, k)), L[i, 0] * L[j, 0])
                S.ensure('covariance of the pair', S.eq(q, rho[names.index(n), names.index(m)]), {'pair': (n, m)})
        S.each('other variables are untouched', lambda a, b: S.exact(a, b), other.uni_sample, u['other'])
        S.cover('transformed')
        return
    concrete_scores(S, names, rvs, other, int(sp.len))


def concrete_scores(S, names, rvs, other, n):
    r, k = S.rng, len(names)
    kind = S.case('kind', ['random', 'identity', 'perfect', 'singular', 'negative'])
    if kind == 'identity':
        rho = np.eye(k)
    elif kind == 'perfect':
        rho = np.ones((k, k))
    elif kind == 'negative':
        rho = np.full((k, k), -0.9 / (k - 1)) + (1 + 0.9 / (k - 1)) * np.eye(k)
    else:
        f = r.normal(size=(k, k if kind == 'random' else 1 if r.integers(2) else max(1, k - 1)))
        c = f @ f.T
        d = np.sqrt(np.diag(c))
        rho = c / d[:, None] / d[None, :]
    S.drawn['rho'], S.drawn['names'] = rho, names
    given = rho.copy()
    s = S.call(uq.RandomVariableSet, 'set', [rvs[x] for x in names], given)
    S.no_raise('a set is defined', s)
    u = {x: r.uniform(0.02, 0.98, n) for x in [*names, 'other']}
    for x in names:
        rvs[x].uni_sample = u[x].copy()
    other.uni_sample = u['other'].copy()
    S.no_raise('correlation is imposed', S.call(s.apply_correlation))
    S.ensure('other variables are untouched', np.array_equal(other.uni_sample, u['other']))
    S.ensure('the matrix given is kept', np.array_equal(given, rho))
    for x in names:
        v = np.asarray(rvs[x].uni_sample)
        S.ensure('levels for each realization', v.shape == (n,) and bool(np.all((v >= 0) & (v <= 1))))
        if kind == 'identity':
            S.ensure('identity leaves the levels', bool(np.allclose(v, u[x], atol=1e-9)))
    z = norm.ppf(np.array([u[x] for x in names]))
    y = norm.ppf(np.array([rvs[x].uni_sample for x in names]))
    if not np.all(np.isfinite(y)) or np.abs(y).max() > 5:
        S.stop()
    m, res, rank, _ = np.linalg.lstsq(z.T, y.T, rcond=None)
    m = m.T
    S.ensure('a linear combination of the uncorrelated scores', bool(np.allclose(m @ z, y, atol=1e-6)))
    S.ensure('that is a factor of the correlation matrix', bool(np.allclose(m @ m.T, rho, atol=1e-6)), {'factor': m, 'rho': rho})
    S.cover('transformed')


def score_correlation(x, y):
    from scipy.stats import rankdata
    n = len(x)
    a, b = (norm.ppf((rankdata(v) - 0.5) / n) for v in (x, y))
    return float(np.corrcoef(a, b)[0, 1])


@contract('C07', 'demands', ['pelicun.model.demand_model.DemandModel.load_model', 'pelicun.model.demand_model.DemandModel._create_RVs', 'pelicun.model.demand_model.DemandModel.generate_sample', SET + 'apply_correlation'], kind='runtime', runs=60,
          bound='up to 5 demands, 2000 realizations; coefficients compared within sampling error', covers=['labels reordered', 'columns reordered', 'numbers in the rows', 'some demands', 'saved'])
def demands(S):
    r = S.rng
    seed = S.int('rng', 1, 10 ** 6)
    n = 2000
    demands_ = [('PFA', '0', '1'), ('PID', '10', '1'), ('PID', '2', '2'), ('PFA', '10', '1'), ('PFA', '2', '1'), ('RID', '1', '1')]
    k = S.int('k', 2, 5)
    edps = [demands_[i] for i in r.permutation(6)[:k]]
    fams = [str(r.choice(['lognormal', 'normal', 'uniform'])) for _ in edps]
    with_corr = [e for e in edps if r.integers(4) > 0]
    if len(with_corr) < 2:
        with_corr = list(edps)
    m = len(with_corr)
    f = r.normal(size=(m, m + 1))
    c = f @ f.T
    d = np.sqrt(np.diag(c))
    rho = pd.DataFrame(c / d[:, None] / d[None, :], index=pd.MultiIndex.from_tuples(with_corr), columns=pd.MultiIndex.from_tuples(with_corr))
    marg = pd.DataFrame({'Units': ['g' if e[0] == 'PFA' else 'rad' for e in edps], 'Family': fams, 'Theta_0': [1.0 if x != 'uniform' else 0.5 for x in fams], 'Theta_1': [0.3 if x != 'uniform' else 2.0 for x in fams]}, index=pd.MultiIndex.from_tuples(edps))
    given = rho.copy()
    if r.integers(2):
        p = r.permutation(m)
        given = given.iloc[p, p]
        S.cover('labels reordered')
    if r.integers(2):
        given = given.iloc[:, r.permutation(m)]
        S.cover('columns reordered')
    if r.integers(3) == 0:  # the labels of a three-level csv file: integers in the rows, text in the columns
        given.index = pd.MultiIndex.from_tuples([(t, int(l), int(d_)) for t, l, d_ in given.index])
        S.cover('numbers in the rows')
    if m < k:
        S.cover('some demands')
    S.drawn.update(demands=edps, families=fams, correlated=with_corr)
    a = full_assessment(Seed=seed)
    keep = given.copy()
    method = S.case('method', ['LHS', 'MonteCarlo', 'LHS_midpoint'])
    a.options.sampling_method = method
    with quiet(), warnings.catch_warnings(), tempdir() as t:
        warnings.simplefilter('ignore')
        res = S.call(a.demand.load_model, {'marginals': marg, 'correlation': given})
        S.no_raise('model loaded', res)
        if r.integers(3) == 0:
            S.no_raise('saved', S.call(a.demand.save_model, t + '/m'))
            a = full_assessment(Seed=seed)
            S.no_raise('restored', S.call(a.demand.load_model, t + '/m'))
            S.cover('saved')
        res = S.call(a.demand.generate_sample, {'SampleSize': n, 'PreserveRawOrder': False})
    S.no_raise('sample generated', res)
    S.ensure('the table given is kept', given.equals(keep))
    sample = a.demand.sample
    for i, x in enumerate(edps):
        for y in edps[:i]:
            want = rho.loc[x, y] if x in with_corr and y in with_corr else 0.0
            got = score_correlation(sample[x].to_numpy(dtype=float), sample[y].to_numpy(dtype=float))
            S.ensure('coefficient of the pair', abs(got - want) < 0.13, {'pair': (x, y), 'requested': want, 'sampled': got})


@contract('C07', 'costs and times', ['pelicun.model.loss_model.RepairModel_DS._create_DV_RVs', 'pelicun.model.loss_model.RepairModel_LF._create_DV_RVs', SET + 'apply_correlation'], kind='runtime', runs=40,
          bound='up to 3 component types at up to 2 places, 2 damage states, 2000 realizations; coefficients compared within sampling error', covers=['damage', 'function', 'uncorrelated'])
def costs(S):
    r = S.rng
    seed = S.int('rng', 1, 10 ** 6)
    n = 2000
    rho = float(r.choice([0.0, 0.5, 0.9, -0.7]))
    types = [str(x) for x in r.permutation(['A', 'Cost', 'Time.1', 'B_1', 'Cost.2', 'C_Cost', 'B.10.31'])[:int(r.integers(1, 4))]]
    function = S.case('kind', ['damage', 'function']) == 'function'
    S.cover('function' if function else 'damage')
    dvs = ['Cost', 'Time'] + (['Carbon'] if r.integers(2) else [])
    dvs = [dvs[i] for i in r.permutation(len(dvs))]
    a = full_assessment(Seed=seed, RepairCostAndTimeCorrelation=str(rho) if r.random() < 0.3 else rho)
    a.loss.decision_variables = tuple(dvs)
    places = {c: [[('1', '1', '0')], [('1', '1', '0'), ('2', '1', '0')], [('1', '1', '0'), ('1', '2', '0')]][int(r.integers(3))] for c in types}
    cols = pd.MultiIndex.from_tuples([(c, *g) for c in types for g in places[c]], names=['cmp', 'loc', 'dir', 'uid'])
    a.asset.cmp_sample = pd.DataFrame(1.0, index=range(n), columns=cols)
    a.asset.cmp_marginal_params = pd.DataFrame({'Theta_0': 1.0, 'Blocks': 1}, index=cols)
    a.demand.sample = pd.DataFrame({('PFA', str(i), str(j)): np.ones(n) for i in range(3) for j in (1, 2)})
    a.demand.sample.columns.names = ['type', 'loc', 'dir']
    family = str(r.choice(['lognormal', 'normal']))
    units = {'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'kg'}
    S.drawn.update(types=types, rho=rho, places=places, dvs=dvs)
    if function:
        rows = {(c, v): {('Demand', 'Type'): 'Peak Floor Acceleration', ('Demand', 'Unit'): 'g', ('Demand', 'Offset'): 0, ('Demand', 'Directional'): 1, ('DV', 'Unit'): units[v],
                         ('LossFunction', 'Theta_0'): '0.0,5.0|0.0,10000.0', ('LossFunction', 'Family'): family, ('LossFunction', 'Theta_1'): 0.2} for c in types for v in dvs}
    else:
        rows = {(c, v): {('Incomplete', ''): 0, ('Quantity', 'Unit'): '1 EA', ('DV', 'Unit'): units[v], **{(f'DS{i}', k): w for i in (1, 2) for k, w in (('Family', family), ('Theta_0', 3.0 * i), ('Theta_1', 0.2))}} for c in types for v in dvs}
        a.damage.ds_model.sample = pd.DataFrame({(c, *g, d): np.full(n, 1.0) for c in types for g in places[c] for d in '012'}).rename_axis(columns=['cmp', 'loc', 'dir', 'uid', 'ds'])
    t = pd.DataFrame.from_dict(rows, orient='index')
    t.index = pd.MultiIndex.from_tuples(list(rows))
    t.columns = pd.MultiIndex.from_tuples(t.columns)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a.loss.add_loss_map(pd.DataFrame({'Repair': types}, index=types))
        S.no_raise('parameters loaded', S.call(a.loss.load_model_parameters, [t]))
        S.no_raise('calculated', S.call(a.loss.calculate))
    L = (a.loss.lf_model if function else a.loss.ds_model).sample
    items = list(map(tuple, L.columns))
    S.ensure('losses of all items', len(items) == sum(map(len, places.values())) * len(dvs) * (1 if function else 2), f'{items}')
    if rho == 0:
        S.cover('uncorrelated')
    for i, x in enumerate(items):
        for y in items[:i]:
            pair = x[1:] == y[1:] and {x[0], y[0]} == {'Cost', 'Time'}
            want = rho if pair else 0.0
            got = score_correlation(L[x].to_numpy(dtype=float), L[y].to_numpy(dtype=float))
            S.ensure('cost and time of the same item are correlated as requested' if pair else 'other losses are uncorrelated', abs(got - want) < 0.14, {'pair': (x, y), 'requested': want, 'sampled': got})


def box(S, k):
    """k variables in a set, bounds of a box, and the probability of it by inclusion and exclusion"""
    r = S.rng
    names = [NAMES[i] for i in r.permutation(len(NAMES))[:k]]
    rvs, cdf = [], {}
    for n in names:
        family = str(r.choice(['normal_std', 'lognormal', 'uniform']))
        m, s = float(r.uniform(1, 5)), float(r.uniform(0.2, 0.6))
        base = {'normal_std': scipy.stats.norm(m, s), 'lognormal': scipy.stats.lognorm(s, scale=m), 'uniform': scipy.stats.uniform(m - s, 2 * s)}[family]
        t = [np.nan, np.nan]
        if family != 'uniform' and r.random() < 0.4:
            t[int(r.integers(2))] = float(base.ppf(0.25 if np.isnan(t[0]) else 0.75))
            t = [v if np.isnan(v) else float(base.ppf(q)) for v, q in zip(t, (0.2, 0.8))]
            S.cover('truncated')
        rvs.append(uq.rv_class_map(family)(name=n, theta=np.array([m - s, m + s] if family == 'uniform' else [m, s]), truncation_limits=np.array(t)))
        lo, hi = (0.0 if np.isnan(t[0]) else base.cdf(t[0])), (1.0 if np.isnan(t[1]) else base.cdf(t[1]))
        cdf[n] = (lambda x, base=base, lo=lo, hi=hi: float(np.clip((base.cdf(x) - lo) / (hi - lo), 0, 1)), base)
    rho = np.eye(k)
    if k > 1 and r.random() < 0.8:
        f = r.normal(size=(k, k))
        rho = f @ f.T + 0.3 * np.eye(k)
        rho /= np.sqrt(np.outer(np.diag(rho), np.diag(rho)))
        S.cover('correlated')
    given = uq.RandomVariableSet('set', rvs, rho)
    chosen = list(given.RV)
    subset = None
    if r.random() < 0.5:
        chosen = subset = [names[i] for i in r.permutation(k)[:int(r.integers(1, k + 1))]]
        S.cover('subset')
    lower = np.array([np.nan if r.random() < 0.35 else float(cdf[n][1].ppf(r.uniform(0, 0.6))) for n in chosen])
    upper = np.array([np.nan if r.random() < 0.35 else float(cdf[n][1].ppf(r.uniform(0.4, 1))) for n in chosen])
    upper = np.where(upper < lower, np.nan, upper)
    z = np.array([[scipy.stats.norm.ppf(cdf[n][0](v)) if not np.isnan(v) else s * np.inf for n, v in zip(chosen, b)] for b, s in ((lower, -1), (upper, 1))])
    i = [names.index(n) for n in chosen]
    C = rho[np.ix_(i, i)]
    want = 0.0
    for corner in itertools.product([0, 1], repeat=len(i)):
        x = [z[c, j] for j, c in enumerate(corner)]
        if any(v == -np.inf for v in x):
            continue
        at = [j for j, v in enumerate(x) if v != np.inf]
        p = 1.0 if not at else float(scipy.stats.norm.cdf(x[at[0]])) if len(at) == 1 else float(scipy.stats.multivariate_normal.cdf([x[j] for j in at], cov=C[np.ix_(at, at)], allow_singular=True, abseps=1e-6, releps=1e-6))
        want += (-1) ** (len(i) - sum(corner)) * p
    S.drawn.update(names=names, subset=subset, lower=lower, upper=upper, rho=rho.tolist())
    return given, subset, lower, upper, want


@contract('C07', 'probability of a box', [SET + 'orthotope_density', 'pelicun.uq.mvn_orthotope_density', SET + 'Rho'], kind='runtime', runs=150,
          bound='up to 3 variables of 3 families with and without truncation and correlation, every subset in any order, bounds missing at random; compared within the error of the numerical integration',
          covers=['truncated', 'correlated', 'subset', 'one variable', 'unbounded', 'several'])
def boxes(S):
    k = S.int('k', 1, 3)
    s, subset, lower, upper, want = box(S, k)
    n = len(lower)
    S.cover('one variable' if n == 1 else 'several')
    if n == 1 and S.rng.random() < 0.5:
        b = [float(lower[0]), float(upper[0])] if S.rng.random() < 0.5 else [lower.copy(), upper.copy()]
    else:
        b = [lower[:, None].copy(), upper[:, None].copy()]
    keep = S.snapshot(b)
    got = S.call(s.orthotope_density, *b, **({} if subset is None else {'var_subset': subset}))
    S.no_raise('accepted', got)
    S.unchanged('bounds', b, keep)
    if np.all(np.isnan(lower)) and np.all(np.isnan(upper)):
        S.cover('unbounded')
    S.ensure('one probability', np.shape(got) == (1,), f'{got}')
    S.ensure('probability of the box under the joint distribution', abs(float(got[0]) - want) < 2e-3, {'got': got, 'expected': want})


@contract('C07', 'box with listed bounds', [SET + 'orthotope_density'], kind='runtime', runs=30, bound='two or three variables, bounds as one-dimensional arrays', covers=['several'])
def listed(S):
    s, subset, lower, upper, want = box(S, S.int('k', 2, 3))
    if len(lower) == 1 or (np.all(np.isnan(lower)) and np.all(np.isnan(upper))):
        S.stop()
    S.cover('several')
    got = S.call(s.orthotope_density, lower, upper, **({} if subset is None else {'var_subset': subset}))
    S.ensure('probability of the box under the joint distribution', not isinstance(got, Raised) and np.size(got) == 1 and abs(float(np.ravel(got)[0]) - want) < 2e-3, {'got': str(got), 'expected': want})
