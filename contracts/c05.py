"""C05 discrete and data-driven variables reproduce exactly the given data"""
import numpy as np
import z3
from pelicun import uq
from pyvc import core
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, special
from contracts.rvs import NAN, phi


def floor(x):
    if core.is_sym(x):
        return core.SInt(z3.ToInt(core.to_term(x)))
    return int(np.floor(x))


@contract('C05', 'empirical', ['pelicun.uq.EmpiricalRandomVariable.__init__', 'pelicun.uq.EmpiricalRandomVariable.inverse_transform'],
          runs=150, modules=[uq], covers=['drawn'])
def empirical(S):
    """the level u selects entry floor(u n) of the data: equal shares, in order"""
    d = S.space('data', lo=1, hi=12)
    sp = S.space('n')
    theta = S.data('theta', d)
    u = S.array('u', sp, lo=0.0, lt=1.0)
    rv = S.call(uq.EmpiricalRandomVariable, 'rv', theta)
    S.no_raise('data are accepted', rv)
    snap = S.snapshot([theta, u])
    r = S.call(rv.inverse_transform, u)
    S.no_raise('every level below one is valid', r)
    S.unchanged('levels and data not modified', [theta, u], snap)
    S.cover('drawn')
    S.each('entry of the k-th equal share', lambda p, x: S.exact(x, S.at(theta, floor(p * d.len))), u, r)


@contract('C05', 'coupled_empirical', ['pelicun.uq.CoupledEmpiricalRandomVariable.__init__',
                                       'pelicun.uq.CoupledEmpiricalRandomVariable.inverse_transform',
                                       'pelicun.uq.UtilityRandomVariable.inverse_transform_sampling'],
          runs=200, modules=[uq], covers=['drawn'])
def coupled(S):
    """data in original order, cyclically repeated to exactly the requested length"""
    d = S.space('data', lo=1, hi=9)
    n = S.int('sample_size', lo=1, hi=40)
    theta = S.data('theta', d)
    rv = S.call(uq.CoupledEmpiricalRandomVariable, 'rv', theta)
    S.no_raise('data are accepted', rv)
    snap = S.snapshot(theta)
    r = S.call(rv.inverse_transform, n)
    S.no_raise('every sample size is valid', r)
    S.unchanged('data not modified', theta, snap)
    S.ensure('exactly the requested length', S.length(r) == n)
    S.cover('drawn')
    i = S.index('i', n)
    S.ensure('entry i is data entry i modulo the data length', S.exact(S.at(r, i), S.at(theta, i % d.len)))
    S.refused('truncation is refused', S.call(uq.CoupledEmpiricalRandomVariable, 'rv', theta, S.vec([0.0, 1.0])), 'NotImplementedError')


@contract('C05', 'deterministic', ['pelicun.uq.DeterministicRandomVariable.__init__',
                                   'pelicun.uq.DeterministicRandomVariable.inverse_transform'],
          runs=60, modules=[uq], covers=['drawn'])
def deterministic(S):
    v = S.real('value', scale=5)
    n = S.int('sample_size', lo=1, hi=40)
    rv = S.call(uq.DeterministicRandomVariable, 'rv', S.vec([v]))
    S.no_raise('a value is accepted', rv)
    r = S.call(rv.inverse_transform, n)
    S.no_raise('every sample size is valid', r)
    S.ensure('exactly the requested length', S.length(r) == n)
    S.each('the value in every realization', lambda x: S.exact(x, v), r)
    S.refused('truncation is refused', S.call(uq.DeterministicRandomVariable, 'rv', S.vec([v]), S.vec([0.0, NAN])), 'NotImplementedError')
    S.cover('drawn')


@contract('C05', 'deterministic[rows]', ['pelicun.uq.DeterministicRandomVariable.__init__',
                                         'pelicun.uq.DeterministicRandomVariable.inverse_transform'],
          kind='bounded', bound='1 to 4 realizations with their own values in the symbolic run (any values)', runs=60, modules=[uq], covers=['drawn'])
def deterministic_rows(S):
    n = S.size('n', 1, 12, sym=(1, 4))
    v = [S.real(f'v{i}', scale=5) for i in range(n)]
    rv = S.call(uq.DeterministicRandomVariable, 'rv', S.columns(S.vec(v), S.vec(v)))
    S.no_raise('values are accepted', rv)
    r = S.call(rv.inverse_transform, n)
    S.no_raise('drawn', r)
    S.ensure('exactly the requested length', S.length(r) == n)
    for i in range(n):
        S.ensure('the value of the realization', S.exact(S.at(r, i), v[i]))
    S.cover('drawn')


@contract('C05', 'multinomial', ['pelicun.uq.MultinomialRandomVariable.__init__', 'pelicun.uq.MultinomialRandomVariable.inverse_transform'],
          kind='bounded', bound='tables of 1 to 5 categories in the symbolic run (all probabilities, all levels, any sample size); up to 9 concretely',
          runs=200, modules=[uq], covers=['drawn', 'refused'])
def multinomial(S):
    k = S.size('categories', 1, 9, sym=(1, 5))
    over = S.case('sum above one', [False, True])
    p = [S.real(f'p{i}', lo=0.0, hi=1.0) for i in range(k)]
    if not S.symbolic:
        t = sum(p) or 1.0
        f = S.rng.choice([1.0, 0.7, 0.999999]) / t if not over else 1.2 / t
        p = [float(x * f) for x in p]
        if not over and sum(p) > 1.0:
            p[-1] = max(0.0, p[-1] - 2e-16 * k)
    tot = sum(p[1:], p[0]) if S.symbolic else float(np.sum(p))
    S.require(tot > 1.0 + 1e-9 if over else tot <= 1.0)
    th = S.vec(p)
    snap_th = S.snapshot(th)
    rv = S.call(uq.MultinomialRandomVariable, 'rv', th)
    if over:
        S.refused('probabilities above one in total are refused', rv, 'ValueError')
        S.cover('refused')
        return
    S.no_raise('valid tables are accepted', rv)
    sp = S.space('n', lo=1, hi=30)
    u = S.array('u', sp, lo=0.0, lt=1.0)
    if not S.symbolic and S.rng.random() < 0.5:
        u[int(S.rng.integers(len(u)))] = min(float(np.cumsum(p)[int(S.rng.integers(k))]), 0.999)
    snap = S.snapshot(u)
    r = S.call(rv.inverse_transform, u)
    S.no_raise('levels are valid', r)
    S.unchanged('levels not modified', u, snap)
    S.unchanged('table not modified', th, snap_th)
    S.cover('drawn')
    cum = []
    acc = 0.0
    for q in p[:-1]:
        acc = acc + q
        cum.append(acc)
    if not S.symbolic:
        cum = list(np.cumsum(p)[:-1])

    def cat(v):
        out = float(k - 1)
        for i in reversed(range(k - 1)):
            out = core.ite(v < cum[i], float(i), out)
        return out
    S.each('category of the interval that contains the level', lambda v, x: S.exact(x, cat(v)), u, r)
    S.refused('truncation is refused', S.call(uq.MultinomialRandomVariable, 'rv', th, S.vec([0.0, 1.0])), 'NotImplementedError')


@contract('C05', 'anchored multinomial', ['pelicun.uq.MultinomialRandomVariable.inverse_transform', 'pelicun.uq.BaseRandomVariable.uni_sample'],
          kind='runtime', bound='concrete registries', runs=40, covers=['drawn'])
def anchored(S):
    """variables sharing the levels of another one see the original levels, in whichever order they are sampled"""
    n = S.int('n', 1, 30)
    reg = uq.RandomVariableRegistry(np.random.default_rng(S.seed))
    a = uq.MultinomialRandomVariable('a', np.array([0.2, 0.5, 0.3]))
    b = uq.MultinomialRandomVariable('b', np.array([0.4, 0.6]), anchor=a)
    c = uq.NormalRandomVariable('c', np.array([0.0, 1.0]), anchor=a)
    e = uq.EmpiricalRandomVariable('e', np.arange(7.0), anchor=a)
    for rv in S.case('order', [[a, b, c, e], [a, e, c, b], [a, c, b, e]]):
        reg.add_RV(rv)
    reg.generate_sample(n, S.case('method', ['LHS', 'MonteCarlo', 'LHS_midpoint']))
    u = a.uni_sample
    S.ensure('levels remain probabilities', bool(np.all((u >= 0) & (u < 1))))
    S.same('b', b.sample, np.where(u < 0.4, 0.0, 1.0))
    S.same('a', a.sample, np.where(u < 0.2, 0.0, np.where(u < 0.7, 1.0, 2.0)))
    S.same('e', e.sample, np.floor(u * 7))
    S.ensure('c', bool(np.allclose([phi(v, 0.0, 1.0) for v in c.sample], u)))
    S.cover('drawn')
