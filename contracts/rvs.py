"""Specification of the distribution families (used by C02, C03, C04)."""
import math
import numpy as np
import scipy.stats
from pelicun import uq
from pyvc import core
from pyvc.core import And, Or, Not, Implies, smax, smin, special, is_sym
from pyvc.contract import Raised

CLS = {'normal_STD': uq.Normal_STD, 'normal_COV': uq.Normal_COV, 'lognormal': uq.LogNormalRandomVariable,
       'uniform': uq.UniformRandomVariable, 'weibull': uq.WeibullRandomVariable,
       'multilinear_CDF': uq.MultilinearCDFRandomVariable, 'normal': uq.NormalRandomVariable}
CONTINUOUS = ['normal', 'normal_STD', 'normal_COV', 'lognormal', 'uniform', 'weibull', 'multilinear_CDF']
FPN = uq.FIRST_POSITIVE_NUMBER
INF = float('inf')
NAN = float('nan')


def s_log(x):
    if core._ctx is not None:
        return core.sym_log(x)
    x = float(x)
    return -INF if x == 0 else (NAN if x < 0 else math.log(x))


def phi(x, m, s):
    if core._ctx is not None:
        return core.norm_cdf(x, m, s)
    return float(scipy.stats.norm.cdf((float(x) - m) / s))


def wcdf(x, k, s):
    if core._ctx is not None:
        return core.weib_cdf(x, k, 0.0, s)
    return float(scipy.stats.weibull_min.cdf(float(x), k, scale=s))


def ucdf(x, a, b):
    if core._ctx is not None:
        return core.unif_cdf(x, a, b - a)
    return float(min(max((float(x) - a) / (b - a), 0.0), 1.0)) if b > a else NAN


class Dist:
    """family + parameters + limits, with the reference distribution function"""

    def __init__(self, fam, theta, a, b):
        self.fam, self.theta, self.a, self.b = fam, theta, a, b      # a, b None when absent
        self.rv = None

    def base_cdf(self, x):
        f, t = self.fam, self.theta
        if f in ('normal', 'normal_STD'):
            return phi(x, t[0], t[1])
        if f == 'normal_COV':
            return phi(x, t[0], core.ite(t[0] >= 0, t[0], -t[0]) * t[1])
        if f == 'lognormal':
            if not special(x) and bool(x <= 0):
                return 0.0
            return phi(s_log(x), s_log(t[0]), t[1])
        if f == 'uniform':
            return ucdf(x, t[0], t[1])
        if f == 'weibull':
            return wcdf(x, t[1], t[0])
        xs, ys = t
        if bool(x <= xs[0]):
            return 0.0
        for i in range(len(xs) - 1):
            if bool(x <= xs[i + 1]):
                return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
        return 1.0

    def natural(self):
        f, t = self.fam, self.theta
        if f in ('lognormal', 'weibull'):
            return 0.0, INF
        if f == 'uniform':
            return t[0], t[1]
        if f == 'multilinear_CDF':
            return t[0][0], t[0][-1]
        return -INF, INF

    def support(self):
        lo, hi = self.natural()
        if self.a is not None:
            lo = self.a if special(lo) else smax(lo, self.a)
        if self.b is not None:
            hi = self.b if special(hi) else smin(hi, self.b)
        return lo, hi

    def masses(self):
        if self.fam == 'lognormal' and (self.a is not None or self.b is not None):
            a = FPN if self.a is None or bool(self.a <= 0) else self.a
            pa = self.base_cdf(a)
        else:
            pa = 0.0 if self.a is None else self.base_cdf(self.a)
        pb = 1.0 if self.b is None else self.base_cdf(self.b)
        return pa, pb

    def spec_cdf(self, x):
        pa, pb = self.masses()
        if self.a is not None and bool(x <= self.a):
            return 0.0
        if self.b is not None and bool(x >= self.b):
            return 1.0
        if self.a is None and self.b is None:
            return self.base_cdf(x)
        p = self.base_cdf(x)
        if self.fam == 'lognormal' and self.a is None:
            if bool(x <= FPN):
                return 0.0
        if self.fam == 'lognormal' and self.a is not None and bool(self.a <= 0) and bool(x <= FPN):
            return 0.0
        return (p - pa) / (pb - pa)

    # conditioning mass large enough for double precision comparisons (concrete runs only)
    @property
    def resolvable(self):
        if core._ctx is not None:
            return True
        pa, pb = self.masses()
        return (pb - pa) > 1e-4

    def representable(self, x):
        """a positive double is at least the smallest positive number"""
        return x >= FPN if self.fam == 'lognormal' else True

    def args(self):
        return self._args

    def snapshot(self, S):
        return S.snapshot(self._args), S.snapshot([self.rv.theta, self.rv.truncation_limits])

    def unchanged(self, S, snap):
        S.unchanged('caller parameters and limits not modified', self._args, snap[0])
        S.unchanged('stored parameters and limits not modified', [self.rv.theta, self.rv.truncation_limits], snap[1])


def draw_theta(S, fam):
    if fam in ('normal', 'normal_STD'):
        return [S.real('mu', scale=3), S.real('sigma', gt=0.0)]
    if fam == 'normal_COV':
        m = S.real('mu', scale=3)
        S.require(Or(m >= 1e-6, m <= -1e-6))
        return [m, S.real('cov', gt=0.0)]
    if fam == 'lognormal':
        return [S.real('median', gt=0.0, scale=2), S.real('beta', gt=0.0)]
    if fam == 'uniform':
        lo = S.real('low', scale=3)
        return [lo, lo + S.real('width', gt=0.0)]
    if fam == 'weibull':
        lam, kappa = S.real('lambda', gt=0.0, scale=2), S.real('kappa', gt=0.0)
        if not S.symbolic:
            # quantiles of smaller shapes underflow
            S.require(kappa >= 0.1)
        return [lam, kappa]
    n = S.size('points', 2, 6, sym=(2, 4))
    xs, ys = [S.real('x0')], [0.0]
    for i in range(1, n):
        xs.append(xs[-1] + S.real(f'dx{i}', gt=0.01, hi=5.0))
    fr = [S.real(f'dy{i}', gt=0.05, hi=1.0) for i in range(1, n)]
    if S.symbolic:
        tot = 0.0
        for f in fr[:-1]:
            tot = tot + f
            ys.append(tot)
        S.require(tot <= 0.95)
        ys.append(1.0)
    else:
        t = np.cumsum(fr) / np.sum(fr)
        ys += [float(v) for v in t[:-1]] + [1.0]
    return [xs, ys]


def table(S, theta):
    xs, ys = theta
    if S.symbolic:
        from pyvc.arrays import obj_array
        return obj_array([[x, y] for x, y in zip(xs, ys)])
    return np.array([[x, y] for x, y in zip(xs, ys)], dtype=float)


def make_rv(S, fam, lim, near=True):
    theta = draw_theta(S, fam)
    a = b = None
    if fam == 'lognormal':
        S.require(theta[0] >= FPN)      # representable positive number
    if lim != 'none':
        c, s = (theta[0], theta[1]) if fam in ('normal', 'normal_STD', 'lognormal') else (theta[0], 1.0)
        if lim in ('lower', 'both'):
            a = S.real('trunc_a') if S.symbolic else float(_lim(S, fam, theta, 'trunc_a'))
        if lim in ('upper', 'both'):
            b = S.real('trunc_b') if S.symbolic else float(_lim(S, fam, theta, 'trunc_b'))
        if lim == 'both':
            if not S.symbolic and S.rng.random() < 0.85 and 'trunc_a' not in S.values:
                a, b = min(a, b), max(a, b)
            S.require(a < b)
    if fam == 'lognormal':
        for v in (a, b):
            if v is not None:
                S.require(Or(v <= 0, v >= FPN))
    D = Dist(fam, theta, a, b)
    th = table(S, theta) if fam == 'multilinear_CDF' else S.vec(theta)
    lims = None if lim == 'none' and S.case('limits given as None', [True, False]) else \
        S.vec([NAN if a is None else a, NAN if b is None else b])
    D._args = [th, lims]
    rv = S.call(CLS[fam], 'rv', th, lims)
    S.no_raise('valid parameters are accepted', rv)
    D.rv = rv
    return D


def _lim(S, fam, theta, name):
    """a truncation limit around the bulk of the distribution, sometimes outside the support"""
    if name in S.values:
        return S.real(name)
    g = S.rng
    z = g.normal() * g.choice([0.5, 1.5, 3.0])
    if fam in ('normal', 'normal_STD'):
        v = theta[0] + z * theta[1]
    elif fam == 'normal_COV':
        v = theta[0] + z * abs(theta[0]) * theta[1]
    elif fam == 'lognormal':
        v = theta[0] * math.exp(max(-30.0, min(30.0, z * theta[1])))
        if g.random() < 0.15:
            v = float(g.choice([0.0, -1.0]))
    elif fam == 'uniform':
        v = theta[0] + (theta[1] - theta[0]) * (0.5 + z * 0.5)
    else:
        v = theta[0] * abs(z)
        if g.random() < 0.15:
            v = float(g.choice([0.0, -1.0]))
    S.drawn[name] = float(v)
    return v


def no_mass(S, D, r):
    """truncation that leaves no probability mass has to be refused; everything else has to be accepted"""
    pa, pb = D.masses()
    if D.a is None and D.b is None:
        S.no_raise('untruncated variables are never refused', r)
        return False
    mass = pb - pa
    if bool(mass <= 0):
        if not S.symbolic and not isinstance(r, Raised) and mass > -1e-9:
            return True         # numerically undecidable
        S.refused('limits without probability mass are refused', r, 'ValueError')
        S.cover('refused')
        return True
    if isinstance(r, Raised):
        lo, hi = D.support()
        tiny = False if special(lo) or special(hi) else (hi - lo <= 1e-300)
        S.ensure('limits that leave probability mass are accepted', And(r.is_a('ValueError'), Or(mass <= 1e-9, tiny)), repr(r))
        return True
    if not S.symbolic and mass < 1e-9:
        return True             # below the resolution of double precision probabilities
    return False
