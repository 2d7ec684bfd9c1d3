"""C03 sampled values follow the specified (truncated) distribution"""
import math
import numpy as np
from pelicun import uq
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, smax, smin, special
from contracts.rvs import *

for fam in CONTINUOUS:
    for lim in ('none', 'lower', 'upper', 'both'):
        if fam == 'multilinear_CDF' and lim != 'none':
            continue

        def _h(S, fam=fam, lim=lim):
            """inverse_transform is the conditional quantile function"""
            D = make_rv(S, fam, lim)
            if D.rv is None:
                return
            sp = S.space('n')
            u = S.array('u', sp, gt=0.0, lt=1.0)
            w = S.array('w', sp, gt=0.0, lt=1.0)
            snap_u, snap = S.snapshot(u), D.snapshot(S)
            r = S.call(D.rv.inverse_transform, u)
            if no_mass(S, D, r):
                return
            S.unchanged('levels not modified', u, snap_u)
            D.unchanged(S, snap)
            lo, hi = D.support()
            S.each('within the limits and the support', lambda x: And(S.ge(x, lo), S.le(x, hi)), r)
            S.each('is finite', lambda x: not special(x), r)
            S.cover('sampled')
            r2 = S.call(D.rv.inverse_transform, w)
            S.no_raise('second draw', r2)
            S.each('never decreases with the level', lambda p, q, x, y: Implies(p <= q, S.le(x, y)), u, w, r, r2)
            if D.resolvable:
                p = S.call(D.rv.cdf, r)
                S.no_raise('probability of the sampled values', p)
                S.each('maps back to its level', lambda a, b, x: Implies(D.representable(x), S.near(a, b)), p, u, r)
                # the value is the quantile of the *specified* distribution
                S.each('is the conditional quantile', lambda a, x: Implies(D.representable(x), S.near(a, D.spec_cdf(x))), u, r)

        contract('C03', f'{fam}.inverse_transform[{lim}]', [f'pelicun.uq.{CLS[fam].__name__}.inverse_transform',
                                                           f'pelicun.uq.{CLS[fam].__name__}.__init__',
                                                           'pelicun.uq.RandomVariable._prepare_theta_and_truncation_limit_arrays',
                                                           'pelicun.uq.RandomVariable._ensure_positive_probability_difference'],
                 kind='proof' if fam != 'multilinear_CDF' else 'bounded',
                 bound=None if fam != 'multilinear_CDF' else 'tables of 2 to 4 points in the symbolic run',
                 runs=120, modules=[uq], covers=['sampled'])(_h)


def _variable(S, fam, lim, limdim):
    """per-realization parameters: every realization follows its own row"""
    sp = S.space('n')
    if fam in ('normal', 'normal_STD'):
        m, s = S.array('mu', sp, scale=3), S.array('sigma', sp, gt=0.01)
        sd = s
    elif fam == 'normal_COV':
        m, s = S.array('mu', sp, gt=0.01, scale=3), S.array('cov', sp, gt=0.01)
        sd = m * s
    else:
        m, s = S.array('median', sp, gt=0.01, scale=2), S.array('beta', sp, gt=0.01)
    u = S.array('u', sp, gt=0.0, lt=1.0)
    a = b = None
    if limdim == 2:
        if lim in ('lower', 'both'):
            a = m - sd * S.array('da', sp, lo=0.0, hi=2.0) if fam != 'lognormal' else m * S.array('da', sp, gt=0.0, hi=1.0)
        if lim in ('upper', 'both'):
            b = m + sd * S.array('db', sp, gt=0.1, hi=2.0) if fam != 'lognormal' else m * S.array('db', sp, gt=1.01, hi=3.0)
    else:
        if lim in ('lower', 'both'):
            a = S.real('a', gt=0.0 if fam == 'lognormal' else None)
        if lim in ('upper', 'both'):
            b = S.real('b', gt=0.0 if fam == 'lognormal' else None, scale=4)
        if lim == 'both':
            S.require(a < b)
    th = S.columns(m, s)
    nan = float('nan')
    if lim == 'none':
        lims = None
    elif limdim == 2:
        lims = S.columns(nan if a is None else a, nan if b is None else b)
    else:
        lims = S.vec([nan if a is None else a, nan if b is None else b])
    rv = S.call(CLS[fam], 'rv', th, lims)
    S.no_raise('per-realization parameters are accepted', rv)
    snap = S.snapshot([th, lims, u])
    r = S.call(rv.inverse_transform, u)
    rows = [S.cells(m), S.cells(s), S.cells(u)]
    n = len(rows[0])
    A = S.cells(a) if a is not None else [None]
    B = S.cells(b) if b is not None else [None]
    A, B = A * n if len(A) == 1 else A, B * n if len(B) == 1 else B
    D = [Dist(fam, [rows[0][i], rows[1][i]], A[i], B[i]) for i in range(n)]
    masses = [d.masses() for d in D]
    if isinstance(r, Raised):
        # at a row other than the generic one the mass may be too small
        S.ensure_exists('refused only if a row has no probability mass',
                        Or(*[pb - pa <= 1e-9 for pa, pb in masses]), repr(r))
        return
    if not S.symbolic and any(pb - pa < 1e-4 for pa, pb in masses):
        return
    S.unchanged('arguments not modified', [th, lims, u], snap)
    R = S.cells(r)
    S.ensure('one value per realization', len(R) == n)
    S.cover('sampled')
    for i in range(n):
        x = R[i]
        S.ensure('finite', not special(x))
        lo, hi = D[i].support()
        S.ensure('within the limits of its row', And(S.ge(x, lo), S.le(x, hi)))
        S.ensure('is the conditional quantile of its row', Implies(D[i].representable(x), S.near(rows[2][i], D[i].spec_cdf(x))), f'row {i}')


for fam in ('normal', 'normal_STD', 'normal_COV', 'lognormal'):
    for lim in ('none', 'lower', 'upper', 'both'):
        for limdim in ((1, 2) if lim != 'none' else (1,)):
            contract('C03', f'{fam}.variable[{lim},{limdim}d]', [f'pelicun.uq.{CLS[fam].__name__}.inverse_transform', f'pelicun.uq.{CLS[fam].__name__}.__init__',
                                                                 'pelicun.uq.RandomVariable._prepare_theta_and_truncation_limit_arrays'],
                     runs=60, modules=[uq], covers=['sampled'])(
                lambda S, fam=fam, lim=lim, limdim=limdim: _variable(S, fam, lim, limdim))


MAP = {'normal_std': 'Normal_STD', 'normal_cov': 'Normal_COV', 'normal': 'Normal_COV', 'lognormal': 'LogNormalRandomVariable',
       'uniform': 'UniformRandomVariable', 'weibull': 'WeibullRandomVariable', 'multilinear_CDF': 'MultilinearCDFRandomVariable',
       'empirical': 'EmpiricalRandomVariable', 'coupled_empirical': 'CoupledEmpiricalRandomVariable',
       'deterministic': 'DeterministicRandomVariable', 'multinomial': 'MultinomialRandomVariable', NAN: 'DeterministicRandomVariable'}


@contract('C03', 'rv_class_map', ['pelicun.uq.rv_class_map'], kind='proof', runs=20, modules=[uq], covers=['known', 'unknown'])
def class_map(S):
    """every family name selects its own class; unknown names are refused (finite domain, complete)"""
    name = S.case('family', [*MAP, 'gamma', '', 'Lognormal'])
    r = S.call(uq.rv_class_map, name)
    if name in MAP:
        S.ensure('the class of the family', r is getattr(uq, MAP[name]), f'{name}: {r}')
        S.cover('known')
    else:
        S.refused('unknown families are refused', r, 'ValueError')
        S.cover('unknown')


@contract('C03', 'sampling', ['pelicun.uq.RandomVariable.inverse_transform_sampling', 'pelicun.uq.BaseRandomVariable.sample',
                              'pelicun.uq.BaseRandomVariable.sample_DF'], kind='runtime',
          bound='random variables, 1-40 realizations', runs=80, covers=['mapped', 'anchored', 'plain'])
def sampling(S):
    """sample/sample_DF are the inverse transform of the (anchor's) levels, passed through f_map"""
    fam = S.case('family', ['normal', 'lognormal', 'uniform', 'weibull'])
    theta = draw_theta(S, fam)
    n = S.int('n', 1, 40)
    u = S.rng.random(n)
    S.drawn['u'] = list(u)
    mode = S.case('mode', ['mapped', 'anchored', 'plain'])
    f = (lambda x: x * 2.0 + 1.0) if mode == 'mapped' else None
    anchor = uq.NormalRandomVariable('anchor', np.array([0.0, 1.0])) if mode == 'anchored' else None
    rv = CLS[fam]('rv', np.array(theta, dtype=float), f_map=f, anchor=anchor)
    S.refused('sampling without levels is refused', S.call(rv.inverse_transform_sampling), 'ValueError')
    (anchor if anchor is not None else rv).uni_sample = u
    if anchor is not None:
        rv.uni_sample = S.rng.random(n)
    snap = S.snapshot(u)
    rv.inverse_transform_sampling()
    S.unchanged('levels not modified', u, snap)
    ref = CLS[fam]('ref', np.array(theta, dtype=float)).inverse_transform(u)
    if f:
        ref = f(ref)
    S.same('sample', np.asarray(rv.sample), np.asarray(ref))
    S.same('sample_DF', rv.sample_DF.to_numpy(), np.asarray(ref))
    S.cover(mode)
