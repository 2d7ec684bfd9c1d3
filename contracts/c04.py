"""C04 cumulative probabilities form a valid distribution function"""
from pelicun import uq
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, special
from contracts.rvs import *

for fam in CONTINUOUS:
    for lim in ('none', 'lower', 'upper', 'both'):
        if fam == 'multilinear_CDF' and lim != 'none':
            continue

        def _h(S, fam=fam, lim=lim):
            """cdf is the conditional distribution function"""
            D = make_rv(S, fam, lim)
            sp = S.space('n')
            lo, hi = D.support()
            sc = 3.0
            x = S.array('x', sp, scale=sc)
            y = S.array('y', sp, scale=sc)
            if not S.symbolic:
                for arr in (x, y):
                    for i in range(len(arr)):
                        if S.rng.random() < 0.5:
                            arr[i] = values_near(S, D)
            if S.symbolic and fam == 'lognormal':
                # there is no double between zero and the smallest positive one
                for v in (*S.cells(x), *S.cells(y)):
                    S.require(Or(v <= 0, v >= FPN))
            snap_x, snap = S.snapshot(x), D.snapshot(S)
            r = S.call(D.rv.cdf, x)
            if no_mass(S, D, r):
                return
            S.unchanged('values not modified', x, snap_x)
            D.unchanged(S, snap)
            S.each('defined', lambda p: not special(p), r)
            S.each('between 0 and 1', lambda p: And(S.ge(p, 0.0), S.le(p, 1.0)), r)
            S.cover('evaluated')
            if D.a is not None:
                S.each('zero at and below the lower limit', lambda v, p: Implies(v <= D.a, S.eq(p, 0.0)), x, r)
            if D.b is not None:
                S.each('one at and above the upper limit', lambda v, p: Implies(v >= D.b, S.eq(p, 1.0)), x, r)
            if D.resolvable:
                if D.fam == 'lognormal' and D.a is None:
                    # a missing lower limit is represented by the smallest positive double
                    S.each('equals the renormalised probability', lambda v, p: Implies(v >= FPN, S.near(p, D.spec_cdf(v))), x, r)
                else:
                    S.each('equals the renormalised probability', lambda v, p: Implies(Or(D.representable(v), v <= 0), S.near(p, D.spec_cdf(v))), x, r)
                if D.fam == 'lognormal':
                    eps = phi(s_log(FPN), s_log(D.theta[0]), D.theta[1])
                    S.each('no probability below zero', lambda v, p: Implies(v <= 0, S.le(p, eps)), x, r)
                if D.fam == 'weibull':
                    S.each('no probability below zero', lambda v, p: Implies(v <= 0, S.eq(p, 0.0)), x, r)
            r2 = S.call(D.rv.cdf, y)
            S.no_raise('second query', r2)
            S.each('never decreases', lambda v, w, p, q: Implies(v <= w, S.le(p, q)), x, y, r, r2)

        contract('C04', f'{fam}.cdf[{lim}]', [f'pelicun.uq.{CLS[fam].__name__}.cdf', f'pelicun.uq.{CLS[fam].__name__}.__init__',
                                             'pelicun.uq.RandomVariable._prepare_theta_and_truncation_limit_arrays',
                                             'pelicun.uq.RandomVariable._ensure_positive_probability_difference'],
                 kind='proof' if fam != 'multilinear_CDF' else 'bounded',
                 bound=None if fam != 'multilinear_CDF' else 'tables of 2 to 4 points in the symbolic run',
                 runs=120, modules=[uq], covers=['evaluated'])(_h)


def values_near(S, D):
    g = S.rng
    pts = [v for v in (*D.support(), *D.natural(), D.a, D.b) if v is not None and not special(v)]
    if D.fam == 'multilinear_CDF':
        pts += list(D.theta[0])
    if D.fam == 'lognormal':
        pts += [D.theta[0] * math.exp(max(-50, min(50, g.normal() * D.theta[1]))), 0.0, -1.0]
    if D.fam.startswith('normal'):
        pts += [D.theta[0] + g.normal() * D.theta[1] * (D.theta[0] if D.fam == 'normal_COV' else 1)]
    if D.fam == 'weibull':
        pts += [D.theta[0] * g.random() * 2, 0.0, -1.0]
    v = float(pts[int(g.integers(len(pts)))]) if pts else 0.0
    return v + float(g.choice([0.0, 0.0, 1e-3, -1e-3, 0.3, -0.3]))
