"""C06 sampling covers every variable consistently and stratifies as requested"""
import numpy as np
import z3
from pelicun import uq
from pyvc import core, arrays
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite

GEN = 'pelicun.uq.RandomVariableRegistry.generate_sample'
METHODS = ['LHS', 'LHS_midpoint', 'MonteCarlo']


class Draws:
    """contract of numpy's Generator: permutation(n) is a rearrangement of 0..n-1, random() is in [0, 1)"""

    def __init__(self, S, sp):
        self.S, self.sp, self.perms, self.randoms = S, sp, [], []

    def permutation(self, n):
        p = self.S.array(f'permutation{len(self.perms)}', self.sp, lo=0.0)
        t = p.data.flat[0]
        self.S.c.add_universal(z3.And(z3.IsInt(t.t), t.t <= z3.ToReal(self.sp.len.t) - 1))
        self.S.ensure('permutation of the requested length', n == self.sp.len)
        self.perms.append(t)
        return p

    def random(self, size=None):
        k, n = size
        self.S.ensure('random numbers of the requested length', n == self.sp.len)
        d = np.empty((k, 1), dtype=object)
        for i in range(k):
            d[i, 0] = self.S.array(f'random{i}', self.sp, lo=0.0, lt=1.0).data.flat[0]
        self.randoms = list(d[:, 0])
        return arrays.SArr(d, (None, self.sp))


LAYOUTS = {
    'one': [('a', None)],
    'two': [('a', None), ('b', None)],
    'anchor first': [('a', None), ('b', 'a'), ('c', None)],
    'anchor last': [('b', 'a'), ('c', None), ('a', None)],
    'chain': [('c', 'b'), ('b', 'a'), ('a', None), ('e', None)],
    'two anchors': [('a', None), ('b', None), ('c', 'a'), ('e', 'b')],
    'deterministic': [('a', None), ('d', None), ('b', 'd'), ('c', 'a')],
}


def build(layout, widths):
    rvs = {}
    todo = list(layout)
    while todo:
        for name, anchor in list(todo):
            if anchor is None or anchor in rvs:
                k = {'anchor': rvs[anchor]} if anchor else {}
                if name == 'd':
                    rvs[name] = uq.DeterministicRandomVariable(name, np.array([3.0]), **k)
                else:
                    rvs[name] = uq.UniformRandomVariable(name, np.array([0.0, widths[name]]), **k)
                todo.remove((name, anchor))
    return rvs


@contract('C06', 'levels', [GEN, 'pelicun.uq.BaseRandomVariable.uni_sample', 'pelicun.uq.RandomVariable.inverse_transform_sampling'],
          kind='bounded', bound='registries of the listed layouts (1-4 variables); any sample size and any draws', modules=[uq], runs=120, covers=METHODS + ['anchored', 'free'])
def levels(S):
    layout = S.case('layout', list(LAYOUTS.values()))
    method = S.case('method', METHODS)
    widths = {'a': 1.0, 'b': 2.0, 'c': 4.0, 'e': 8.0}
    rvs = build(layout, widths)
    sp = S.space('n', lo=1, hi=40)
    n = sp.len if S.symbolic else int(sp.len)
    rng = Draws(S, sp) if S.symbolic else np.random.default_rng(S.int('rng', 0, 10 ** 6))
    reg = S.call(uq.RandomVariableRegistry, rng)
    for name, _ in layout:
        reg.add_RV(rvs[name])
    r = S.call(reg.generate_sample, n, method)
    S.no_raise('a sample is generated', r)
    free = [name for name, anchor in layout if anchor is None]
    if S.symbolic and method != 'MonteCarlo':
        S.ensure('a permutation for each free variable', len(rng.perms) >= len(free))
    used = []
    for name, anchor in layout:
        rv = rvs[name]
        u = rv.uni_sample
        S.ensure('as many realizations as requested', S.length(rv.sample) == n)
        S.ensure('as many levels as requested', S.length(u) == n)
        S.each('levels are in [0, 1)', lambda v: And(v >= 0.0, v < 1.0), u)
        if name != 'd':
            S.each('realizations at the levels of the variable', lambda v, x, w=widths[name]: S.eq(x, v * w), u, rv.sample)
        else:
            S.each('the value', lambda x: S.exact(x, 3.0), rv.sample)
        if anchor:
            S.each('the levels of the anchor', lambda a, b: S.exact(a, b), u, rvs[anchor].uni_sample)
            S.cover('anchored')
            continue
        S.cover('free')
        if S.symbolic:
            t = u.data.flat[0]
            pick = [p for p in rng.perms if bool(And(S.le(p, t * n), S.lt(t * n, p + 1)))] if method != 'MonteCarlo' else []
            if method == 'MonteCarlo':
                own = [i for i, x in enumerate(rng.randoms) if x is t or core.to_term(x).eq(core.to_term(t))]
                S.ensure('a draw of its own', len(own) == 1 and own[0] not in used)
                used += own
            else:
                # the level of realization i lies in stratum p_i of a permutation p that no other variable uses
                k = len(used)
                S.ensure('one level in each stratum', And(t * n >= rng.perms[k], t * n < rng.perms[k] + 1))
                used.append(k)
                if method == 'LHS_midpoint':
                    S.ensure('at the midpoint', S.eq(t * n, rng.perms[k] + 0.5))
        elif method != 'MonteCarlo':
            s = np.sort(np.asarray(u)) * n
            S.ensure('one level in each stratum', bool(np.all((s >= np.arange(n) - 1e-9) & (s <= np.arange(n) + 1 + 1e-9))))
            if method == 'LHS_midpoint':
                S.ensure('at the midpoint', bool(np.allclose(s, np.arange(n) + 0.5)))
        if not S.symbolic and n > 5:
            for o in free:
                if o != name:
                    S.ensure('levels of its own', not np.array_equal(u, rvs[o].uni_sample))
    S.cover(method)


@contract('C06', 'names', ['pelicun.uq.RandomVariableRegistry.add_RV', 'pelicun.uq.RandomVariableRegistry.RVs'], kind='bounded', modules=[uq], runs=60, bound='sequences of up to 4 variables with 3 names', covers=['refused', 'added'])
def names(S):
    reg = uq.RandomVariableRegistry(np.random.default_rng(0))
    have = {}
    for i in range(S.case('count', [1, 2, 3, 4])):
        name = S.case(f'name{i}', ['a', 'b', 'B'])
        rv = uq.DeterministicRandomVariable(name, np.array([float(i)]))
        r = S.call(reg.add_RV, rv)
        if name in have:
            S.refused('a name can be registered once', r, 'ValueError')
            S.cover('refused')
        else:
            S.no_raise('a new name is registered', r)
            have[name] = rv
            S.cover('added')
        S.ensure('the registered variables are kept', list(reg.RV) == list(have) and all(reg.RV[k] is v for k, v in have.items()))
        S.ensure('variables are found by name', all(reg.RVs([k]) == {k: v} for k, v in have.items()))


FAM = {
    'normal': lambda r: (np.array([r.uniform(1, 5), r.uniform(0.1, 0.5)]), {}),
    'normal_std': lambda r: (np.array([r.uniform(1, 5), r.uniform(0.1, 0.5)]), {'truncation_limits': np.array([0.1, 9.0])}),
    'lognormal': lambda r: (np.array([r.uniform(1, 5), r.uniform(0.1, 0.5)]), {}),
    'uniform': lambda r: (np.array([0.0, r.uniform(1, 5)]), {}),
    'weibull': lambda r: (np.array([r.uniform(1, 5), r.uniform(1, 3)]), {}),
    'multilinear_CDF': lambda r: (np.array([[0.0, 0.0], [1.0, 0.3], [3.0, 1.0]]), {}),
    'empirical': lambda r: (r.uniform(0, 1, int(r.integers(1, 9))), {}),
    'multinomial': lambda r: (np.array([0.2, 0.3, 0.5]), {}),
    'deterministic': lambda r: (np.array([2.0]), {}),
    'coupled_empirical': lambda r: (r.uniform(0, 1, int(r.integers(1, 9))), {}),
}


@contract('C06', 'registries', [GEN, 'pelicun.uq.RandomVariableSet.apply_correlation', 'pelicun.uq.rv_class_map', 'pelicun.uq.RandomVariableRegistry.RV_sample'], kind='runtime', runs=200,
          bound='up to 12 variables of all families with any anchors, up to 2 sets, up to 60 realizations, up to 3 consecutive samples', covers=METHODS + ['anchored', 'set', 'again'])
def registries(S):
    r = S.rng
    seed = S.int('rng', 0, 10 ** 6)
    k = S.int('k', 1, 12)
    rvs, anchors, fams = {}, {}, {}
    for i in range(k):
        name = f'v{int(r.integers(1000))}-{i}'
        fams[name] = str(r.choice(list(FAM)))
        theta, kw = FAM[fams[name]](r)
        anchors[name] = str(r.choice(list(rvs))) if rvs and r.integers(3) == 0 else None
        if anchors[name]:
            kw['anchor'] = rvs[anchors[name]]
        rvs[name] = uq.rv_class_map(fams[name])(name=name, theta=theta, **kw)
    reg = uq.RandomVariableRegistry(np.random.default_rng(seed))
    order = list(rvs)
    for i in r.permutation(k):
        reg.add_RV(rvs[order[int(i)]])
    roots = {}
    for name in order:
        roots[name] = name if not anchors[name] else roots[anchors[name]]
    free = [x for x in order if not anchors[x] and fams[x] not in ('deterministic', 'coupled_empirical')]
    sets = []
    rest = list(free)
    while len(rest) > 2 and len(sets) < 2 and r.integers(2):
        sets.append([rest.pop(int(r.integers(len(rest)))) for _ in range(2)])
        reg.add_RV_set(uq.RandomVariableSet(f's{len(sets)}', [rvs[x] for x in sets[-1]], np.array([[1.0, 0.6], [0.6, 1.0]])))
        S.cover('set')
    S.drawn['variables'] = [(x, fams[x], anchors[x]) for x in order]
    correlated = {x for s in sets for x in s}
    seen = set()
    for t in range(S.int('times', 1, 3)):
        n = int(r.integers(1, 61))
        method = str(r.choice(METHODS))
        S.no_raise('a sample is generated', S.call(reg.generate_sample, n, method))
        S.cover(method)
        if t:
            S.cover('again')
        sample = reg.RV_sample
        S.ensure('a sample of every variable', list(sample) == list(reg.RV))
        for x in order:
            rv = rvs[x]
            u = np.asarray(rv.uni_sample)
            S.ensure('as many realizations as requested', np.shape(rv.sample) == (n,) and len(rv.sample_DF) == n, {'shape': np.shape(rv.sample), 'n': n})
            S.ensure('sample of the variable', np.array_equal(sample[x], rv.sample) and np.array_equal(rv.sample_DF.to_numpy(), rv.sample))
            S.ensure('levels are in [0, 1)', u.shape == (n,) and bool(np.all((u >= 0) & (u < 1))))
            want = rv.inverse_transform(n) if isinstance(rv, uq.UtilityRandomVariable) else rv.inverse_transform(u)
            S.ensure('realizations at the levels of the variable', np.array_equal(want, rv.sample))
            S.ensure('the levels of the anchor', np.array_equal(u, rvs[roots[x]].uni_sample))
            if anchors[x]:
                S.cover('anchored')
                continue
            if n > 5:
                S.ensure('levels of its own', tuple(u) not in seen)
                seen.add(tuple(u))
            if method != 'MonteCarlo' and x not in correlated:
                s = np.sort(u) * n
                S.ensure('one level in each stratum', bool(np.all((s >= np.arange(n) - 1e-9) & (s <= np.arange(n) + 1 + 1e-9))), {'variable': x, 'levels': s})
                if method == 'LHS_midpoint':
                    S.ensure('at the midpoint', bool(np.allclose(s, np.arange(n) + 0.5)))
