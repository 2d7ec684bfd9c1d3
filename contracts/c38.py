"""C38 fits maximise the likelihood of the data, limits and censored counts given"""
import math
import warnings
import numpy as np
import scipy.stats
from pelicun import uq
from pyvc import core
from pyvc.arrays import elementwise
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite, smin, smax, special
from contracts.rvs import phi, s_log, NAN, INF

FAMS = ['normal', 'normal_std', 'normal_cov', 'lognormal']
norm = scipy.stats.norm


# --------------------------------------------------------------- independent likelihood

def mass(lim, mu, s, missing):
    return missing if lim != lim else float(norm.cdf(lim, mu, s))


def log_likelihood(x, mus, sigs, tr, det, count, rho):
    """data (one row per quantity, already in the space of the normal distribution), limits nan if missing"""
    total = np.zeros(np.shape(x)[1])
    z, lo, up = [], [], []
    for xi, m, s, (a, b), (l, u) in zip(x, mus, sigs, tr, det):
        pa, pb = mass(a, m, s, 0.0), mass(b, m, s, 1.0)
        total += norm.logpdf(xi, m, s) - math.log(pb - pa)
        z.append(norm.ppf((norm.cdf(xi, m, s) - pa) / (pb - pa)))
        pl, pu = (min(max(mass(v, m, s, d), pa), pb) for v, d in ((l, 0.0), (u, 1.0)))
        lo.append(norm.ppf((pl - pa) / (pb - pa)))
        up.append(norm.ppf((pu - pa) / (pb - pa)))
    z = np.array(z)
    if len(z) > 1:
        total += scipy.stats.multivariate_normal.logpdf(z.T, np.zeros(len(z)), rho) - norm.logpdf(z).sum(axis=0)
    out = float(np.sum(total))
    if count:
        inside = box(lo, up, rho) if len(z) > 1 else float(norm.cdf(up[0]) - norm.cdf(lo[0]))
        out += count * math.log(max(1.0 - inside, 1e-300))
    return out


def box(lo, up, rho):
    """probability that two correlated standard normal quantities lie in the given intervals"""
    r = rho[0][1]
    t, w = np.polynomial.legendre.leggauss(400)
    a, b = max(lo[0], -9.0), min(up[0], 9.0)
    v = (b - a) / 2 * t + (a + b) / 2
    c = math.sqrt(1 - r * r)
    return float(np.sum(w * norm.pdf(v) * (norm.cdf((up[1] - r * v) / c) - norm.cdf((lo[1] - r * v) / c))) * (b - a) / 2)


def scores(x, mus, sigs, tr):
    z = []
    for xi, m, s, (a, b) in zip(x, mus, sigs, tr):
        pa, pb = mass(a, m, s, 0.0), mass(b, m, s, 1.0)
        z.append(norm.ppf((norm.cdf(xi, m, s) - pa) / (pb - pa)))
    return np.array(z)


def spread(fam, mu, second):
    """standard deviation in the space of the normal distribution"""
    return second if fam in ('normal_std', 'lognormal') else abs(mu) * second


# --------------------------------------------------------------- the parts, for every input

for lim in ('none', 'lower', 'upper', 'both'):
    for fam in FAMS:
        def _h(S, fam=fam, lim=lim):
            """probability below each limit"""
            mu, sig = S.real('mu', scale=3), S.real('sigma', gt=0.0)
            a = S.real('a', scale=3) if lim in ('lower', 'both') else NAN
            b = S.real('b', scale=3) if lim in ('upper', 'both') else NAN
            r = S.call(uq._get_limit_probs, [a, b], fam, [mu, sig])
            S.no_raise('accepted', r)
            S.cover('evaluated')
            S.ensure('probability below the lower limit', S.near(r[0], 0.0 if lim in ('none', 'upper') else phi(a, mu, sig)))
            S.ensure('probability below the upper limit', S.near(r[1], 1.0 if lim in ('none', 'lower') else phi(b, mu, sig)))

        contract('C38', f'limit probabilities {fam}[{lim}]', ['pelicun.uq._get_limit_probs'], kind='proof', runs=40,
                 modules=[uq], covers=['evaluated'])(_h)


for lim in ('none', 'lower', 'upper', 'both'):
    def _h(S, lim=lim):
        """normal scores of the data"""
        fam = S.case('family', FAMS)
        mu, sig = S.real('mu', scale=3), S.real('sigma', gt=0.0)
        a = S.real('a', scale=3) if lim in ('lower', 'both') else NAN
        b = S.real('b', scale=3) if lim in ('upper', 'both') else NAN
        if lim == 'both':
            S.require(a < b)
        values = [mu + sig * S.real(f'x{i}', scale=1.5) for i in range(2)]
        pa = 0.0 if lim in ('none', 'upper') else phi(a, mu, sig)
        pb = 1.0 if lim in ('none', 'lower') else phi(b, mu, sig)
        S.require(pb - pa > 1e-9)
        for v in values:
            S.require(And(phi(v, mu, sig) > 1e-12, phi(v, mu, sig) < 1 - 1e-12))
        outside = Or(False, *[v < a for v in values if lim in ('lower', 'both')],
                     *[v > b for v in values if lim in ('upper', 'both')])
        data = np.empty((1, 2), dtype=object if S.symbolic else float)
        for i, v in enumerate(values):
            data[0, i] = v
        if S.symbolic:
            import pyvc.arrays
            data = data.view(pyvc.arrays.OArr)
        r = S.call(uq._get_std_samples, data, np.array([[mu, sig]], dtype=object if S.symbolic else float),
                   [[a, b]], [fam])
        if bool(outside):
            S.cover('refused')
            S.refused('data outside the truncation limits', r, 'ValueError')
            return
        S.no_raise('accepted', r)
        S.cover('evaluated')
        for i, v in enumerate(values):
            p = (phi(v, mu, sig) - pa) / (pb - pa)
            if S.symbolic:
                want = core.norm_ppf(p, 0.0, 1.0)
            else:
                want = float(norm.ppf(p))
            if S.symbolic or 1e-9 < p < 1 - 1e-9:
                S.ensure('score of the conditional probability', S.near(r[0, i], want))

    contract('C38', f'normal scores[{lim}]', ['pelicun.uq._get_std_samples', 'pelicun.uq._get_limit_probs'], kind='bounded',
             bound='one quantity with two realizations', runs=60, modules=[uq],
             covers=['evaluated'] + (['refused'] if lim != 'none' else []))(_h)


class Mvn:
    """assumed contract of scipy's density of one standard normal quantity"""

    @staticmethod
    def pdf(x, mean=None, cov=None):
        if not any(core.is_sym(v) for v in np.asarray(x, dtype=object).ravel()):
            return scipy.stats.multivariate_normal.pdf(np.asarray(x, dtype=float), mean=mean, cov=cov)
        assert np.shape(cov) == (1, 1)
        s = np.sqrt(float(cov[0][0]))
        return objects([core.norm_pdf(row[0] - float(mean[0]), 0.0, s) for row in np.asarray(x, dtype=object)])


def no_dependence(x, rho):
    """contract of _mvn_scale for one quantity (checked below)"""
    if np.shape(rho) != (1, 1):
        return ORIGINAL(x, rho)
    return np.ones(np.shape(np.atleast_2d(x))[0])


ORIGINAL = uq._mvn_scale


@contract('C38', 'no dependence with one quantity', ['pelicun.uq._mvn_scale'], kind='bounded', bound='one quantity with three realizations',
          runs=60, modules=[uq], covers=['evaluated'], extra={uq: {'mvn': Mvn}})
def _dependence(S):
    x = [S.real(f'x{i}', scale=3) for i in range(3)]
    for v in x:
        S.require(core.norm_pdf(v, 0.0, 1.0) >= 1e-300 if S.symbolic else abs(v) < 35)
    r = S.call(uq._mvn_scale, table(S, [[v] for v in x]), np.array([[1.0]]))
    S.no_raise('accepted', r)
    S.cover('evaluated')
    for i in range(3):
        S.ensure('the dependence does not change the likelihood', S.near(r[i], 1.0))


def mvndst(lower, upper, infin, correl):
    """assumed contract of the integration of the density of one standard normal quantity"""
    assert len(lower) == 1
    lo = 0.0 if infin[0] in (0, -1) else core.norm_cdf(lower[0], 0.0, 1.0)
    up = 1.0 if infin[0] in (1, -1) else core.norm_cdf(upper[0], 0.0, 1.0)
    return 0.0, up - lo, 0


def objects(values):
    import pyvc.arrays
    a = np.empty(np.shape(values), dtype=object)
    for i, v in np.ndenumerate(np.array(values, dtype=object)):
        a[i] = v
    return a.view(pyvc.arrays.OArr)


def table(S, values):
    return objects(values) if S.symbolic else np.array(values, dtype=float)


for lim in ('none', 'lower', 'upper', 'both'):
    for det in ('none', 'lower', 'upper', 'both'):
        def _h(S, lim=lim, det=det):
            """likelihood of data of one quantity"""
            fam = S.case('family', ['normal_std']) if S.symbolic else str(S.rng.choice(['normal_std', 'normal_cov', 'lognormal']))
            if S.symbolic:
                mu, dmu = S.real('mu', scale=3), 0.5
                sig, dsig = S.case('sigmas', [(0.75, -0.25), (1.0, 1.0)])
            else:
                mu, dmu = S.real('mu', scale=3), S.real('dmu', lo=-3, hi=3)
                sig, dsig = S.real('sigma', gt=0.0), S.real('dsig', lo=-3, hi=3)

            def value(name):
                if S.symbolic:
                    return S.real(name, scale=3)
                step = dmu if fam != 'normal_cov' else dmu * sig * math.exp(dsig)
                width = sig + dsig if fam == 'normal_std' else sig * math.exp(dsig)
                return mu + step + width * S.real(name, scale=1.5)

            a = value('a') if lim in ('lower', 'both') else NAN
            b = value('b') if lim in ('upper', 'both') else NAN
            l = value('l') if det in ('lower', 'both') else NAN
            u = value('u') if det in ('upper', 'both') else NAN
            count = S.case('count', [0, 3])
            x = [value(f'x{i}') for i in range(1 if S.symbolic else 3)]
            if not S.symbolic and lim == 'both':
                a, b = min(a, b), max(a, b)
            if not S.symbolic and det == 'both':
                l, u = min(l, u), max(l, u)
            if not S.symbolic:
                x = [float(np.clip(v, a if a == a else -np.inf, b if b == b else np.inf)) for v in x]
            if lim == 'both':
                S.require(a < b)
            if det == 'both':
                S.require(l < u)
            for v in x:
                S.require(And(*([v >= a] if lim in ('lower', 'both') else []), *([v <= b] if lim in ('upper', 'both') else [])))
            theta = S.call(uq._get_theta, table(S, [[dmu, dsig]]), table(S, [[mu, sig]]), np.array([fam]))
            S.no_raise('parameters', theta)
            m, s = theta[0][0], theta[0][1]
            if not S.symbolic and not s > 1e-3:
                S.stop()
            S.require(s > 1e-3)
            pa = 0.0 if lim in ('none', 'upper') else phi(a, m, s)
            pb = 1.0 if lim in ('none', 'lower') else phi(b, m, s)
            S.require(pb - pa > 1e-6)
            q = [(phi(v, m, s) - pa) / (pb - pa) for v in x]
            for v in q:
                S.require(And(v > 1e-9, v < 1 - 1e-9))
            pl = pa if det in ('none', 'upper') else smin(smax(phi(l, m, s), pa), pb)
            pu = pb if det in ('none', 'lower') else smin(smax(phi(u, m, s), pa), pb)
            inside = (pu - pl) / (pb - pa)
            S.require(Or(count <= 0, And(inside > 1e-9, inside < 1 - 1e-9)))
            r = S.call(uq._neg_log_likelihood, objects([dmu, dsig]) if S.symbolic else np.array([dmu, dsig]), table(S, [[mu, sig]]),
                       np.array([-10.0, -5.0]), np.array([10.0, 5.0]), table(S, [x]), np.array([fam]), [[a, b]], [[l, u]], count, True)
            S.no_raise('accepted', r)
            S.cover('evaluated')
            if S.symbolic:
                like = [core.norm_pdf(v, m, s) / (pb - pa) for v in x]
                total = sum(core.sym_log(smax(v, uq.FIRST_POSITIVE_NUMBER)) for v in like)
                if bool(count > 0):
                    total = total + count * core.sym_log(smax(1.0 - inside, uq.FIRST_POSITIVE_NUMBER))
                S.ensure('negative logarithm of the likelihood per data point', S.near(r, -total))
            else:
                want = -log_likelihood([x], [m], [s], [[a, b]], [[l, u]], count, None) / 3
                S.ensure('negative logarithm of the likelihood per data point', abs(r - want) <= 1e-4 * (1 + abs(want)), {'got': r, 'expected': want})

        contract('C38', f'likelihood limits {lim}, detection {det}', ['pelicun.uq._neg_log_likelihood', 'pelicun.uq._get_limit_probs', 'pelicun.uq._get_std_samples',
                                       'pelicun.uq.mvn_orthotope_density', 'pelicun.uq._mvn_scale'], kind='bounded',
                 bound='one quantity; symbolic run: one realization, two standard deviations', runs=60, modules=[uq], covers=['evaluated'],
                 extra={uq: {'mvn': Mvn, 'mvndst': mvndst, '_mvn_scale': no_dependence}})(_h)


# --------------------------------------------------------------- dependence

def draw_limits(g, x, m, s, both=0.35):
    """limits nan if missing, containing the data"""
    tr = [NAN, NAN]
    if g.random() < both:
        tr[0] = float(min(x)) - s * g.random()
    if g.random() < both:
        tr[1] = float(max(x)) + s * g.random()
    return tr


@contract('C38', 'likelihood of dependent quantities', ['pelicun.uq._neg_log_likelihood', 'pelicun.uq.mvn_orthotope_density', 'pelicun.uq._mvn_scale',
                                                        'pelicun.uq._get_std_corr_matrix'], kind='runtime',
          bound='two quantities, 5 to 60 realizations', runs=150, covers=['evaluated', 'censored'])
def _joint(S):
    g = S.rng
    n = int(g.integers(5, 60))
    fams = [str(v) for v in g.choice(['normal_std', 'normal_cov', 'lognormal'], 2)]
    m, s = g.normal(size=2) * 3, g.uniform(0.2, 2, 2)
    r = g.uniform(-0.8, 0.8)
    z = g.multivariate_normal([0, 0], [[1, r], [r, 1]], size=n).T
    x = m[:, None] + s[:, None] * z
    tr = [draw_limits(g, x[i], m[i], s[i]) for i in range(2)]
    det = [draw_limits(g, x[i], m[i], s[i]) for i in range(2)]
    count = int(g.integers(0, 6))
    inits = np.column_stack([m, s])
    step = g.normal(size=(2, 2)) * 0.1
    snap = S.snapshot([x, tr, det, inits])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        theta = S.call(uq._get_theta, step, inits, np.array(fams))
        S.no_raise('parameters', theta)
        mus, sigs = theta[:, 0], theta[:, 1]
        got = S.call(uq._neg_log_likelihood, step.flatten(), inits, np.full(4, -10.0), np.full(4, 10.0), x, np.array(fams), np.array(tr), np.array(det), count, True)
    S.no_raise('accepted', got)
    sc = scores(x, mus, sigs, tr)
    rho = sc @ sc.T / n
    if not np.all(np.isfinite(sc)) or abs(rho[0, 1]) > 0.95:
        S.stop()
    rho[0, 0] = rho[1, 1] = 1.0
    want = log_likelihood(x, mus, sigs, tr, det, count, rho)
    if not math.isfinite(want) or want < -600 * n:
        S.stop()
    S.cover('evaluated')
    if count:
        S.cover('censored')
    slack = 1e-3 * (1 + abs(want / (2 * n)))
    if count:
        base = log_likelihood(x, mus, sigs, tr, det, 0, rho)
        p = math.exp((want - base) / count)
        if p < 2e-3:
            S.stop()
        slack += count * 1e-4 / p
    S.ensure('negative logarithm of the joint likelihood per value', abs(got + want / (2 * n)) <= slack,
             {'got': float(got), 'expected': -want / (2 * n), 'families': fams, 'truncation': tr, 'detection': det, 'censored': count})
    S.unchanged('inputs not modified', [x, tr, det, inits], snap)


# --------------------------------------------------------------- fits

def given(values, missing):
    """missing limits as nan or infinite"""
    return [v if v == v else d for v, d in zip(values, missing)]


@contract('C38', 'fit of one quantity', ['pelicun.uq.fit_distribution_to_sample'], kind='runtime',
          bound='50 to 200 realizations of moderate scale and mild limits', runs=60, covers=['limits', 'censored', 'detection limits without censored data'])
def _fit(S):
    g = S.rng
    fam = str(g.choice(FAMS))
    mu, cov = float(g.uniform(2, 5)), float(g.uniform(0.15, 0.4))
    n = int(g.integers(60, 200))
    log = fam == 'lognormal'
    m, s = (math.log(mu), cov) if log else (mu, mu * cov)
    q = lambda p: m + s * float(norm.ppf(p))
    x = m + s * norm.ppf(g.random(n))
    tr, det = [NAN, NAN], [NAN, NAN]
    k, k2 = int(g.integers(4)), int(g.integers(4))
    if k & 1:
        tr[0] = q(g.uniform(0.01, 0.06))
    if k & 2:
        tr[1] = q(g.uniform(0.94, 0.99))
    if k2 & 1:
        det[0] = q(g.uniform(0.03, 0.12))
    if k2 & 2:
        det[1] = q(g.uniform(0.88, 0.97))
    x = x[~(x < tr[0]) & ~(x > tr[1])]
    seen = ~(x < det[0]) & ~(x > det[1])
    count = int(np.sum(~seen))
    if g.random() < 0.25:
        # nothing is censored although there are detection limits
        count = 0
        det = [v if v != v or not np.any(x < v if i == 0 else x > v) else [float(min(x)), float(max(x))][i] + [-1, 1][i] * 0.02 * s for i, v in enumerate(det)]
    else:
        x = x[seen]
    lin = (lambda v: np.exp(v)) if log else (lambda v: v)
    raw = np.array([lin(x)])
    before = raw.copy()
    tr_in = given([v if v != v else float(lin(v)) for v in tr], [NAN, NAN] if g.random() < 0.5 else [0.0 if log else -INF, INF])
    det_in = given([v if v != v else float(lin(v)) for v in det], [NAN, NAN] if g.random() < 0.5 else [0.0 if log else -INF, INF])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = S.call(uq.fit_distribution_to_sample, raw, fam, tr_in, count, det_in)
    S.no_raise('fitted', r)
    theta, rho = r
    first, second = float(theta[0][0]), float(theta[0][1])
    S.ensure('one quantity is not correlated with others', np.allclose(rho, [[1.0]]))
    fm = math.log(first) if log else first
    fs = spread(fam, first, second)
    S.ensure('positive standard deviation', fs > 0, theta)
    ll = lambda a, b: log_likelihood([x], [a], [b], [tr], [det], count, None)
    fit = ll(fm, fs)
    others = {'the distribution of the data': ll(m, s), 'the moments': ll(float(np.mean(x)), float(np.std(x)))}
    for d in (-1, 1):
        others[f'shifted {d}'] = ll(fm + d * 0.1 * fs, fs)
        others[f'scaled {d}'] = ll(fm, fs * 1.1 ** d)
    if any(v == v for v in tr):
        S.cover('limits')
    if count:
        S.cover('censored')
    elif any(v == v for v in det):
        S.cover('detection limits without censored data')
    for what, v in others.items():
        S.ensure(f'at least as likely as {what.rstrip("-1 ")}', fit >= v - 0.3, {'family': fam, 'fit': [first, second], 'log-likelihood': fit, 'other': v, 'truncation': tr, 'detection': det,
                                                              'censored': count, 'generated with': [m, s], 'seed': S.seed})


@contract('C38', 'fit without limits', ['pelicun.uq.fit_distribution_to_sample'], kind='runtime',
          bound='up to 3 quantities, 1 to 60 realizations of any scale', runs=150, covers=['fitted', 'one realization'])
def _closed(S):
    g = S.rng
    d, n = int(g.integers(1, 4)), int(g.choice([1, 2, 3, 5, 20, 60]))
    fams = [str(v) for v in g.choice(FAMS, d)]
    if g.random() < 0.4:
        fams = [fams[0]] * d
    scale = [10.0 ** g.uniform(-6, 6) for _ in range(d)]
    a = g.normal(size=(d, d))
    z = a @ g.normal(size=(d, n))
    raw = np.array([c * np.exp(0.3 * v) for c, v in zip(scale, z)])
    for i, f in enumerate(fams):
        if f != 'lognormal' and g.random() < 0.4:
            raw[i] *= -1
    if g.random() < 0.2:
        raw = np.round(raw / np.abs(raw).max(axis=1, keepdims=True) * 90).astype(int)
        raw[raw == 0] = 1
        raw[[f == 'lognormal' for f in fams]] = np.abs(raw[[f == 'lognormal' for f in fams]])
    keep = raw.astype(float)
    same = len(set(fams)) == 1 and g.random() < 0.5
    kw = {}
    if g.random() < 0.5:
        kw = {'truncation_limits': (None, None), 'detection_limits': [(NAN, NAN)] * d}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()):
            r = S.call(uq.fit_distribution_to_sample, raw, fams[0] if same else fams, **kw)
    S.no_raise('fitted', r)
    theta, rho = r
    S.cover('fitted')
    x = np.array([np.log(k) if f == 'lognormal' else k for k, f in zip(keep, fams)])
    m, s = x.mean(axis=1), x.std(axis=1)
    for i, f in enumerate(fams):
        S.ensure('location is that of the data', np.isclose(theta[i][0], math.exp(m[i]) if f == 'lognormal' else m[i]), {'family': f, 'got': theta[i]})
        if s[i] <= 1e-9 * abs(m[i]):
            S.ensure('negligible dispersion of constant data', 0 < theta[i][1] <= 1e-5 * max(1.0, abs(m[i])), {'family': f, 'got': theta[i]})
            if n == 1:
                S.cover('one realization')
        elif n > 1:
            S.ensure('dispersion is that of the data', np.isclose(theta[i][1], s[i] if f in ('lognormal', 'normal_std') else s[i] / abs(m[i])), {'family': f, 'got': theta[i]})
    S.ensure('one correlation per pair of quantities', np.shape(rho) == (d, d) and np.allclose(np.diag(rho), 1.0), rho)
    if n > 3 and np.all(s > 1e-9 * np.abs(m)):
        want = np.corrcoef(x) if d > 1 else np.ones((1, 1))
        S.ensure('correlations of the data', np.allclose(rho, want, atol=1e-4), {'got': rho, 'expected': want})


@contract('C38', 'fit of dependent quantities', ['pelicun.uq.fit_distribution_to_sample'], kind='runtime',
          bound='two quantities, 80 to 200 realizations of moderate scale and mild limits', runs=40, covers=['limits', 'censored', 'jointly'])
def _fit2(S):
    g = S.rng
    n = int(g.integers(80, 200))
    fams = [str(v) for v in g.choice(FAMS, 2)]
    mu, cov = g.uniform(2, 5, 2), g.uniform(0.15, 0.4, 2)
    logs = [f == 'lognormal' for f in fams]
    m = [math.log(v) if k else float(v) for v, k in zip(mu, logs)]
    s = [float(c) if k else float(c * v) for c, v, k in zip(cov, mu, logs)]
    r0 = g.uniform(-0.7, 0.7)
    z = g.multivariate_normal([0, 0], [[1, r0], [r0, 1]], size=n).T
    x = np.array([m[i] + s[i] * z[i] for i in range(2)])
    tr, det = [[NAN, NAN], [NAN, NAN]], [[NAN, NAN], [NAN, NAN]]
    shared = bool(g.random() < 0.3)
    if shared:
        fams = [fams[0]] * 2
        logs = [logs[0]] * 2
        m, s = [m[0], m[0]], [s[0], s[0] * float(g.uniform(0.9, 1.1))]
        x = np.array([m[i] + s[i] * z[i] for i in range(2)])
        j = int(g.integers(2))
        which = tr if g.random() < 0.6 else det
        v = m[0] + s[0] * float(norm.ppf(g.uniform(0.03, 0.08) if j == 0 else g.uniform(0.92, 0.97)))
        for i in range(2):
            which[i][j] = v
    for i in range(0 if shared else 2):
        if g.random() < 0.4:
            j = int(g.integers(2))
            tr[i][j] = m[i] + s[i] * float(norm.ppf([0.03, 0.97][j]))
        if g.random() < 0.4:
            j = int(g.integers(2))
            det[i][j] = m[i] + s[i] * float(norm.ppf([0.08, 0.92][j]))
    ok = np.ones(n, dtype=bool)
    for i in range(2):
        ok &= ~(x[i] < tr[i][0]) & ~(x[i] > tr[i][1])
    x = x[:, ok]
    seen = np.ones(x.shape[1], dtype=bool)
    for i in range(2):
        seen &= ~(x[i] < det[i][0]) & ~(x[i] > det[i][1])
    count = int(np.sum(~seen))
    x = x[:, seen]
    lin = [lambda v: v if v != v else float(np.exp(v)) if k else float(v) for k in logs]
    lin = [(lambda v, k=k: v if v != v else (float(np.exp(v)) if k else float(v))) for k in logs]
    raw = np.array([np.exp(v) if k else v for v, k in zip(x, logs)])
    tr_in = [[lin[i](v) for v in tr[i]] for i in range(2)]
    det_in = [[lin[i](v) for v in det[i]] for i in range(2)]
    multi = bool(g.random() < 0.3)
    if shared:
        tr_in, det_in = tr_in[0], det_in[0]
        if g.random() < 0.5:
            fams_in = fams[0]
        else:
            fams_in = fams
    else:
        fams_in = fams
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = S.call(uq.fit_distribution_to_sample, raw, fams_in, tr_in, count, det_in, multi_fit=multi)
    S.no_raise('fitted', r)
    theta, rho = r
    limited = any(v == v for t in tr for v in t)
    if limited:
        S.cover('limits')
    if count:
        S.cover('censored')
    if multi:
        S.cover('jointly')
    fm = [math.log(t[0]) if k else float(t[0]) for t, k in zip(theta, logs)]
    fs = [spread(f, t[0], t[1]) for f, t in zip(fams, theta)]
    S.ensure('positive standard deviations', min(fs) > 0, theta)
    sc = scores(x, fm, fs, tr)
    want = sc @ sc.T / x.shape[1]
    np.fill_diagonal(want, 1.0)
    S.ensure('correlations are those of the normal scores', np.allclose(rho, want, atol=1e-6), {'got': rho, 'expected': want})
    detail = {'families': fams, 'fit': theta, 'generated with': [m, s, r0], 'truncation': tr, 'detection': det, 'censored': count, 'jointly': multi, 'seed': S.seed}
    if limited and (multi or count) or count:
        def joint(a, b):
            sc = scores(x, a, b, tr)
            c = sc @ sc.T / x.shape[1]
            return log_likelihood(x, a, b, tr, det, count, [[1, c[0, 1]], [c[0, 1], 1]])
        fit, true = joint(fm, fs), joint(m, s)
        S.ensure('at least as likely as the distribution of the data', fit >= true - 1.0, {'log-likelihood': fit, 'other': true, **detail})
    elif not multi:
        for i in range(2):
            one = lambda a, b: log_likelihood([x[i]], [a], [b], [tr[i]], [[NAN, NAN]], 0, None)
            fit, true = one(fm[i], fs[i]), one(m[i], s[i])
            S.ensure('each quantity is at least as likely as with the distribution of the data', fit >= true - 0.3, {'log-likelihood': fit, 'other': true, **detail})


@contract('C38', 'data outside the limits', ['pelicun.uq.fit_distribution_to_sample', 'pelicun.uq._get_std_samples'], kind='runtime',
          bound='one or two quantities', runs=60, covers=['refused'])
def _outside(S):
    g = S.rng
    d = int(g.integers(1, 3))
    fams = [str(v) for v in g.choice(FAMS, d)]
    raw = np.exp(g.normal(size=(d, int(g.integers(4, 30)))) * 0.3)
    i = int(g.integers(d))
    tr = [[NAN, NAN] for _ in range(d)]
    if g.random() < 0.5:
        tr[i][0] = float(np.sort(raw[i])[:2].mean())
    else:
        tr[i][1] = float(np.sort(raw[i])[-2:].mean())
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = S.call(uq.fit_distribution_to_sample, raw, fams, tr)
    S.cover('refused')
    S.refused('data outside the truncation limits', r, 'ValueError')


@contract('C38', 'percentiles', ['pelicun.uq.fit_distribution_to_percentiles', 'pelicun.uq._OLS_percentiles'], kind='runtime',
          bound='3 to 9 percentiles', runs=60, covers=['normal', 'lognormal', 'approximate'])
def _percentiles(S):
    g = S.rng
    fam = str(g.choice(['normal', 'lognormal']))
    m, c = float(g.uniform(1, 30)), float(g.uniform(0.1, 0.5))
    p = sorted({0.5, *[float(round(v, 2)) for v in g.uniform(0.03, 0.97, int(g.integers(2, 8)))]})
    if len(p) < 3 or max(p) < 0.6:
        p = [0.16, 0.5, 0.84]
    values = [float(m + m * c * norm.ppf(v)) if fam == 'normal' else float(m * math.exp(c * norm.ppf(v))) for v in p]
    exact = bool(g.random() < 0.6)
    if not exact:
        values = sorted(float(v * g.uniform(0.93, 1.07)) for v in values)
        if values[p.index(0.5)] <= 0 or min(values) <= 0:
            S.stop()
    order = [int(v) for v in g.permutation(len(p))]
    fams = [str(v) for v in g.permutation(['normal', 'lognormal'])]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = S.call(uq.fit_distribution_to_percentiles, [values[i] for i in order], [p[i] for i in order], fams)
    S.no_raise('fitted', r)
    S.cover(fam)
    got = np.array([norm.ppf(v, r[1][0], r[1][1]) if r[0] == 'normal' else r[1][0] * math.exp(r[1][1] * norm.ppf(v)) for v in p])
    if not exact:
        S.cover('approximate')
        err = lambda f, a, b: float(np.sum(((norm.ppf(p, a, b) if f == 'normal' else a * np.exp(b * norm.ppf(p))) - values) ** 2))
        zs = norm.ppf(p)
        b, a = np.polyfit(zs, values, 1)
        lb, la = np.polyfit(zs, np.log(values), 1)
        best = min([err('normal', a, b), err('lognormal', math.exp(la), lb), err(fam, m, m * c if fam == 'normal' else c)])
        got = err(r[0], *r[1])
        S.ensure('the smallest error of the families', got <= best * (1 + 1e-3) + 1e-9, {'fit': r, 'percentiles': p, 'values': values, 'error': got, 'smaller': best})
        return
    S.ensure('the percentiles are reproduced', np.allclose(got, values, rtol=1e-3), {'family': fam, 'fit': r, 'percentiles': p, 'values': values, 'got': got})
    if len(p) >= 3:
        S.ensure('the family that fits is selected', r[0] == fam, {'family': fam, 'fit': r})
