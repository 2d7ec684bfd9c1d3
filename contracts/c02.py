"""C02 changing units of a distribution equals changing units of its samples"""
import numpy as np
import pandas as pd
from pelicun import uq, assessment
from pelicun.model import pelicun_model
from pyvc import core
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, special
from contracts.rvs import NAN, draw_theta, Dist, CLS, FPN, s_log

SCALABLE = ['normal_std', 'normal_cov', 'normal', 'lognormal', 'uniform']
FAM = {'normal_std': 'normal_STD', 'normal_cov': 'normal_COV', 'normal': 'normal_COV', 'lognormal': 'lognormal', 'uniform': 'uniform'}
POWER = {'normal_std': (1, 1), 'normal_cov': (1, 0), 'normal': (1, 0), 'lognormal': (1, 0), 'uniform': (1, 1)}

for fam in SCALABLE:
    def _params(S, fam=fam):
        """parameters and limits of the rescaled variable"""
        theta = draw_theta(S, FAM[fam])
        k = S.real('factor', gt=0.0)
        lim = S.case('limits', ['none', 'lower', 'upper', 'both', 'absent'])
        a = S.real('a', scale=3) if lim in ('lower', 'both') else NAN
        b = S.real('b', scale=3) if lim in ('upper', 'both') else NAN
        extra = S.case('third parameter', [False, True])
        th = S.vec([*theta, NAN] if extra else theta)
        lims = None if lim == 'none' else S.vec([a, b])
        snap = S.snapshot([th, lims])
        r = S.call(uq.scale_distribution, k, fam, th, lims)
        S.no_raise('supported families are scaled', r)
        S.unchanged('caller arrays not modified', [th, lims], snap)
        t2, l2 = r
        S.cover('scaled')
        S.ensure('same number of parameters', len(S.cells(t2)) == len(S.cells(th)))
        for i in (0, 1):
            S.ensure(f'parameter {i} scaled by the power of its unit', S.eq(S.cells(t2)[i], theta[i] * k if POWER[fam][i] else theta[i]))
        if extra:
            S.ensure('undefined parameter stays undefined', S.exact(S.cells(t2)[2], NAN))
        if lims is None:
            S.ensure('no limits remain no limits', l2 is None)
        else:
            S.ensure('limits scaled', And(*[S.eq(p, NAN if special(q) else q * k) for p, q in zip(S.cells(l2), [a, b])]))

    contract('C02', f'scale_distribution[{fam}]', ['pelicun.uq.scale_distribution'], runs=150, modules=[uq], covers=['scaled'])(_params)

    for lim in ('none', 'lower', 'upper', 'both'):
        def _cdf(S, fam=fam, lim=lim):
            """the rescaled variable has the same probabilities at rescaled values and rescaled samples"""
            f = FAM[fam]
            theta = draw_theta(S, f)
            k = S.real('factor', gt=0.01 if not S.symbolic else 0.0, scale=2)
            a = b = None
            if not S.symbolic:
                w = theta[1] if fam == 'normal_std' else (theta[1] - theta[0] if fam == 'uniform' else abs(theta[0]) * theta[1])
                c = theta[0]
            if lim in ('lower', 'both'):
                a = S.real('a') if S.symbolic else float(c - w * S.rng.random())
            if lim in ('upper', 'both'):
                b = S.real('b') if S.symbolic else float(c + w * S.rng.random() * 0.9)
            if lim == 'both':
                S.require(a < b)
            if f == 'normal_COV':
                m = theta[0] * k
                S.require(Or(m >= 1e-6, m <= -1e-6))
            if f == 'uniform' and not S.symbolic:
                S.require(theta[1] - theta[0] > 1e-3)
            if f == 'lognormal':
                S.require(And(theta[0] >= FPN, theta[0] * k >= FPN))
                for v in (a, b):
                    if v is not None:
                        S.require(And(v >= FPN, v * k >= FPN))
            D = Dist(f, theta, a, b)
            pa, pb = D.masses()
            S.require(pb - pa > 1e-3)
            if f == 'uniform':      # intervals wide enough to be sampled
                lo, hi = D.support()
                S.require(And(hi - lo > 1e-100, (hi - lo) * k > 1e-100))
            th = S.vec(theta)
            lims = None if lim == 'none' else S.vec([NAN if a is None else a, NAN if b is None else b])
            r = S.call(uq.scale_distribution, k, fam, th, lims)
            S.no_raise('scaled', r)
            one = S.call(CLS[f], 'one', th, lims)
            two = S.call(CLS[f], 'two', r[0], r[1])
            S.no_raise('original', one)
            S.no_raise('rescaled parameters are a valid distribution', two)
            sp = S.space('n')
            x = S.array('x', sp, scale=3)
            p1, p2 = S.call(one.cdf, x), S.call(two.cdf, x * k)
            S.no_raise('cdf', p1)
            S.no_raise('cdf of the rescaled variable', p2)
            if f == 'lognormal':
                S.each('same probability at the rescaled value', lambda v, p, q: Implies(And(v >= FPN, v * k >= FPN), S.near(p, q)), x, p1, p2)
            else:
                S.each('same probability at the rescaled value', lambda p, q: S.near(p, q), p1, p2)
            S.cover('cdf')
            u = S.array('u', sp, gt=0.0, lt=1.0)
            s1, s2 = S.call(one.inverse_transform, u), S.call(two.inverse_transform, u)
            S.no_raise('sample', s1)
            S.no_raise('sample of the rescaled variable', s2)
            if f == 'lognormal':
                def rescaled(v, w):
                    if S.symbolic:
                        s_log(v * k), s_log(w)      # ghost: instances of the logarithm laws
                    return Implies(And(v > FPN, w > FPN), S.near(v * k, w))
                S.each('samples are rescaled', rescaled, s1, s2)
            else:
                S.each('samples are rescaled', lambda v, w: S.near(v * k, w), s1, s2)

        # a missing lower limit of a lognormal is represented by the smallest positive double, which does not rescale
        approx = fam == 'lognormal' and lim == 'upper'
        contract('C02', f'scaled variable[{fam},{lim}]', ['pelicun.uq.scale_distribution', f'pelicun.uq.{CLS[FAM[fam]].__name__}.cdf',
                                                          f'pelicun.uq.{CLS[FAM[fam]].__name__}.inverse_transform'],
                 kind='runtime' if approx else 'proof', bound='concrete parameters' if approx else None,
                 runs=60, modules=[uq], covers=['cdf'])(_cdf)


@contract('C02', 'scale_distribution[other]', ['pelicun.uq.scale_distribution'], runs=120, modules=[uq],
          covers=['deterministic', 'refused'])
def other(S):
    """deterministic values and tabulated abscissae scale; every other family is refused"""
    k = S.real('factor', gt=0.0)
    fam = S.case('family', ['deterministic', NAN, None, 'weibull', 'empirical', 'coupled_empirical', 'multinomial', 'gamma', '', 'Normal'])
    v = S.real('v', scale=4)
    th = S.vec([v, NAN, NAN])
    snap = S.snapshot(th)
    r = S.call(uq.scale_distribution, k, fam, th)
    S.unchanged('caller parameters not modified', th, snap)
    if fam in ('deterministic', None) or fam is NAN:
        S.no_raise('values without a distribution are scaled', r)
        S.ensure('value times factor', S.eq(S.cells(r[0])[0], v * k))
        S.ensure('nothing else', And(*[S.exact(c, NAN) for c in S.cells(r[0])[1:]]))
        S.cover('deterministic')
    else:
        S.refused('families that cannot be rescaled are refused', r, 'ValueError')
        S.cover('refused')


@contract('C02', 'scale_distribution[arrays]', ['pelicun.uq.scale_distribution'], runs=80, modules=[uq], covers=['scaled'])
def arrays_(S):
    """a parameter given by several ordinates: every ordinate is rescaled"""
    k = S.real('factor', gt=0.0)
    fam = S.case('family', ['normal_std', 'normal_cov', 'lognormal', 'uniform', 'deterministic', 'multilinear_CDF'])
    n = 3
    xs = S.vec([S.real(f'x{i}', scale=3) for i in range(n)])
    th = np.empty(3, dtype=object)
    th[0], th[1], th[2] = xs, S.real('t1', gt=0.0), NAN
    snap = S.snapshot(xs)
    with_t1 = th[1]
    r = S.call(uq.scale_distribution, k, fam, th)
    S.no_raise('ordinates are scaled', r)
    S.unchanged('ordinates of the caller not modified', xs, snap)
    S.ensure('the argument keeps its entries', And(th[0] is xs, S.exact(th[1], with_t1)))
    S.each('every ordinate times the factor', lambda p, q: S.eq(p * k, q), S.cells(xs), S.cells(r[0][0]))
    S.cover('scaled')


@contract('C02', 'scale_distribution[integers]', ['pelicun.uq.scale_distribution'], kind='runtime', bound='integer parameters', runs=40,
          covers=['scaled'])
def integers(S):
    """parameters given as integers are scaled to real values"""
    fam = S.case('family', SCALABLE)
    th = np.array([S.int('t0', 1, 9), S.int('t1', 10, 19)])
    lims = S.case('limits', [None, np.array([1, 30])])
    k = S.real('factor', gt=0.0)
    r = uq.scale_distribution(k, fam, th, lims)
    S.ensure('parameters', S.eq(r[0][0], th[0] * k) and S.eq(r[0][1], th[1] * (k if POWER[fam][1] else 1.0)))
    S.ensure('limits', r[1] is None if lims is None else S.eq(r[1][0], k) and S.eq(r[1][1], 30 * k))
    S.cover('scaled')


# ---------------------------------------------------------------------------- tables
UNITS = ['ft', 'inch', 'm2', 'ft2', 'g', 'kip', 'minute', '10 ft2', '100 kN', '1 EA', 'USD_2011']


def _asm():
    return assessment.AssessmentBase({'Verbose': False, 'PrintLog': False, 'LogFile': None})


def _g(v):
    return f'{v:.8g}'


@contract('C02', 'PelicunModel._convert_marginal_params', ['pelicun.model.pelicun_model.PelicunModel._convert_marginal_params',
                                                           'pelicun.uq.scale_distribution'], kind='runtime',
          bound='generated tables of 1-6 marginals', runs=250, covers=['plain', 'args', 'inverse', 'tabulated'])
def marginals(S):
    """every marginal keeps its physical meaning: scaled by its own unit (and the unit of its reference quantity)"""
    from pelicun.model.pelicun_model import PelicunModel
    asm = _asm()
    m = PelicunModel(asm)
    g = S.rng
    n = S.int('rows', 1, 6)
    idx = [f'v{i}' for i in g.permutation(n)]
    with_args = S.case('argument units', [False, True])
    div = S.case('divide', [True, False]) if with_args else True
    inv = S.case('inverse', [False, True])
    rows, units, args = [], [], []
    for i in range(n):
        fam = str(g.choice(['normal', 'normal_std', 'normal_cov', 'lognormal', 'uniform', 'deterministic', 'nan', 'empirical'] +
                           (['tab', 'tab'] if not inv else [])))
        t0, t1 = abs(float(g.normal(3, 1))) + 0.5, float(g.random()) + 0.1
        if fam == 'uniform':
            t1 = t0 + t1
        row = {'Family': None if fam == 'nan' else fam, 'Theta_0': t0, 'Theta_1': NAN if fam in ('deterministic', 'nan') else t1,
               'Theta_2': NAN, 'TruncateLower': NAN, 'TruncateUpper': NAN}
        if fam == 'tab':
            row['Family'] = str(g.choice(['normal', 'lognormal', 'nan']))
            row['Family'] = None if row['Family'] == 'nan' else row['Family']
            k = int(g.integers(1, 4))
            y, x = np.round(g.random(k + 1) * 100, 2), np.round(np.cumsum(g.random(k + 1)) * 10, 2)
            row['Theta_0'] = ','.join(map(str, y)) + '|' + ','.join(map(str, x))
            row['_y'], row['_x'] = y, x
            if row['Family'] is None:
                row['Theta_1'] = NAN
        if fam not in ('deterministic', 'nan', 'empirical', 'tab') and g.random() < 0.4:
            row['TruncateLower'] = float(g.random()) * 0.4
        if fam not in ('deterministic', 'nan', 'empirical', 'tab') and g.random() < 0.4:
            row['TruncateUpper'] = t0 + 5 * float(g.random())
        rows.append(row)
        units.append(None if g.random() < 0.1 else str(g.choice(UNITS)))
        args.append(str(g.choice(['1 EA', 'ft', 'ft2', '10 ft2', 'm', '2 EA'])))
    drop = S.case('columns', ['all', 'min'])
    cols = ['Family', 'Theta_0', 'Theta_1', 'Theta_2', 'TruncateLower', 'TruncateUpper']
    df = pd.DataFrame(rows, index=idx, dtype=object)[cols]
    df['Comment'] = [f'c{i}' for i in range(n)]
    if drop == 'min':
        keep = [c for c in df.columns if not df[c].isna().all() or c in ('Theta_0', 'Family')]
        df = df[keep]
    u, au = pd.Series(units, index=idx, dtype=object), pd.Series(args, index=idx, dtype=object) if with_args else None
    before = df.copy(deep=True)
    ubefore = u.copy()
    S.drawn['table'] = before.to_dict(orient='index')
    S.drawn['units'], S.drawn['arg_units'] = units, args if with_args else None
    r = S.call(m._convert_marginal_params, df.copy(deep=True), u, au, divide_units=div, inverse_conversion=inv)
    S.no_raise('valid tables are converted', r)
    S.ensure('columns preserved', list(r.columns) == list(before.columns), f'{list(r.columns)}')
    S.ensure('rows preserved', list(r.index) == idx)
    S.unchanged('units not modified', u, ubefore)
    F = asm.calc_unit_scale_factor
    for i, v in enumerate(idx):
        row = rows[i]
        b, a = before.loc[v], r.loc[v]
        S.ensure('other columns untouched', a['Comment'] == b['Comment'])
        if units[i] is None or row['Family'] == 'empirical':
            for c in before.columns:
                S.ensure('rows without unit are untouched', (pd.isna(a[c]) and pd.isna(b[c])) or a[c] == b[c], f'{v} {c}')
            continue
        af = 1.0
        if with_args and args[i] != '1 EA':
            af = F(args[i])
            S.cover('args')
        k = F(units[i]) / af if div else F(units[i])
        if inv:
            k = 1.0 / k
            S.cover('inverse')
        fam = row['Family'] or 'deterministic'
        if isinstance(row['Theta_0'], str):
            S.cover('tabulated')
            y, x = [np.array(p.split(','), dtype=float) for p in a['Theta_0'].split('|')]
            S.ensure('ordinates scaled', len(y) == len(row['_y']) and np.allclose(y, row['_y'] * k, rtol=1e-4), f'{v} {a["Theta_0"]}')
            S.ensure('abscissae scaled by their own unit', len(x) == len(row['_x']) and np.allclose(x, row['_x'] * af, rtol=1e-4), f'{v} {a["Theta_0"]}')
        else:
            S.cover('plain')
            S.ensure('first parameter scaled', S.eq(a['Theta_0'], row['Theta_0'] * k), f'{v}: {a["Theta_0"]} {row["Theta_0"]} {k}')
        if 'Theta_1' in r.columns:
            p1 = POWER.get(fam, (1, 0))[1]
            S.ensure('second parameter', S.eq(a['Theta_1'], NAN if pd.isna(row['Theta_1']) else row['Theta_1'] * (k if p1 else 1.0)), f'{v} {fam}: {a["Theta_1"]}')
        for c in ('TruncateLower', 'TruncateUpper'):
            if c in r.columns:
                S.ensure('limits scaled', S.eq(a[c], NAN if pd.isna(row[c]) else row[c] * k), f'{v} {c} {a[c]}')


@contract('C02', 'unknown units and families in tables', ['pelicun.model.pelicun_model.PelicunModel._convert_marginal_params'], kind='runtime',
          bound='generated tables', runs=20, covers=['family', 'unit'])
def bad_tables(S):
    from pelicun.model.pelicun_model import PelicunModel
    m = PelicunModel(_asm())
    what = S.case('what', ['family', 'unit'])
    df = pd.DataFrame({'Family': ['normal', 'weibull' if what == 'family' else 'normal'], 'Theta_0': [1.0, 2.0], 'Theta_1': [0.1, 0.2]}, index=['a', 'b'])
    u = pd.Series(['ft', 'ft' if what == 'family' else 'furlong'], index=['a', 'b'])
    S.refused('refused', S.call(m._convert_marginal_params, df, u), 'ValueError', 'KeyError')
    S.cover(what)


@contract('C02', 'every marginal of a table', ['pelicun.model.pelicun_model.PelicunModel._convert_marginal_params', 'pelicun.uq.scale_distribution'], kind='bounded', modules=[pelicun_model, uq], runs=80,
          bound='tables of two marginals of any two of 8 families with any limits, the same unit, two units or none; with and without units of the arguments, divided or not, and both directions (enumerated); arbitrary parameters, limits and unit factors',
          covers=['same unit', 'two units', 'no unit', 'arguments', 'not divided', 'inverse', 'limits', 'constant', 'not scaled'])
def table(S):
    from pelicun.model.pelicun_model import PelicunModel
    fac = {'u1': S.real('factor 1', gt=0, scale=3), 'u2': S.real('factor 2', gt=0, scale=3), 'arg': S.real('argument factor', gt=0, scale=3)}

    class Units(assessment.AssessmentBase):
        def calc_unit_scale_factor(self, unit):
            return fac[unit]

        scale_factor = calc_unit_scale_factor
    m = PelicunModel(Units({'Verbose': False, 'PrintLog': False, 'LogFile': None}))
    fams = ['normal', 'normal_std', 'normal_cov', 'lognormal', 'uniform', 'deterministic', None, 'empirical']
    f0 = S.case('family', fams)
    f1 = S.case('second family', ['lognormal', 'normal_std', None])
    u = S.case('units', [('u1', 'u1'), ('u1', 'u2'), ('u2', None)])
    S.cover('no unit' if None in u else 'same unit' if u[0] == u[1] else 'two units')
    how = S.case('arguments', ['none', 'divided', 'not divided'])
    inverse = S.case('inverse', [False, True])
    args = None if how == 'none' else ('arg', '1 EA')
    if args:
        S.cover('arguments')
    if how == 'not divided':
        S.cover('not divided')
    if inverse:
        S.cover('inverse')
    cols = ['Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper', 'Other']
    data = np.empty((2, 6), dtype=object)
    data[:] = np.nan
    for i, fam in enumerate((f0, f1)):
        data[i, 0], data[i, 5] = fam, f'text {i}'
        data[i, 1] = S.real(f'theta0 of {i}', gt=0, scale=3)
        if fam in ('deterministic', None):
            S.cover('constant')
        elif fam == 'empirical':
            S.cover('not scaled')
        else:
            data[i, 2] = S.real(f'theta1 of {i}', gt=0, scale=3)
            lim = S.case(f'limits of {i}', ['none', 'lower', 'both']) if i == 0 else 'none'
            if lim != 'none':
                S.cover('limits')
                data[i, 3] = S.real('lower', scale=3)
            if lim == 'both':
                data[i, 4] = S.real('upper', scale=3)
    t = pd.DataFrame(data, index=['v.2', 'v.1'], columns=cols)
    unit = pd.Series(u, index=['v.2', 'v.1'], dtype=object)
    arg = None if args is None else pd.Series(args, index=['v.2', 'v.1'], dtype=object)
    given = data.copy()
    r = S.call(m._convert_marginal_params, t, unit, arg, divide_units=how != 'not divided', inverse_conversion=inverse)
    S.no_raise('converted', r)
    S.ensure('the same table', list(r.columns) == cols and list(r.index) == ['v.2', 'v.1'])
    for i, fam in enumerate((f0, f1)):
        S.ensure('other columns kept', r.iloc[i, 5] == f'text {i}' and (r.iloc[i, 0] is fam or r.iloc[i, 0] == fam))
        k = 1.0
        if u[i] is not None and fam != 'empirical':
            af = fac['arg'] if args and i == 0 and how == 'divided' else 1.0
            k = fac[u[i]] / af
            if inverse:
                k = 1.0 / k
        p1 = POWER.get(fam or 'deterministic', (1, 0))[1]
        for j, x in ((1, k), (2, k if p1 else 1.0), (3, k), (4, k)):
            a, b = r.iloc[i, j], given[i, j]
            S.ensure(f'{cols[j]} in the new unit', (isinstance(a, float) and a != a) if isinstance(b, float) and b != b else S.eq(a, b * x), f'{fam} {u[i]}: {a} {b}')
