"""C18 each component is checked against the demand its parameters ask for"""
import numpy as np
import pandas as pd
from pelicun import base
from pelicun.model import demand_model, damage_model
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite
from contracts.util import *
from contracts import gen

F = ['pelicun.model.demand_model._get_required_demand_type', 'pelicun.model.demand_model._verify_edps_available', 'pelicun.model.demand_model._assemble_required_demand_data']
TYPES = {'Peak Interstory Drift Ratio': 'PID', 'Peak Floor Acceleration': 'PFA', 'Peak Floor Velocity': 'PFV', 'Peak Ground Acceleration': 'PGA', 'Residual Interstory Drift Ratio': 'RID', 'Spectral Acceleration|1.13': 'SA_1.13',
         'One Mode Factor': None}
TYPES = {k: v for k, v in TYPES.items() if v}


def lookup(model, pgs, offsets, mult, sample):
    """the real path from parameters to demand values, as both damage and loss models walk it"""
    req = demand_model._get_required_demand_type(model, pgs, offsets)
    avail = pd.DataFrame(index=sample.columns).reset_index().groupby(['type', 'loc'])['dir'].agg(lambda x: list(set(x))).to_dict()
    demand_model._verify_edps_available(avail, set(req.keys()))
    dem = demand_model._assemble_required_demand_data(set(req.keys()), mult, sample)
    out = {}
    for k, groups in req.items():
        for g in groups:
            assert g not in out, 'a group appears twice'
            out[g] = dem[k]
    return out


def place(t, par, loc, offsets):
    off = dict(offsets or {})
    return int(loc) + par[1] + off.get(t.split('_')[0], 0)


def expected(S, par, loc, drc, offsets, mult, cells, n):
    """None if it is not available"""
    t = TYPES[par[0]]
    l = place(t, par, loc, offsets)
    if l < 0:
        return None
    if par[2] and drc != '0':
        return cells.get((t, str(l), drc))
    mine = [v for k, v in cells.items() if k[:2] == (t, str(l))]
    m = mult.get(t, mult.get('ALL'))
    if not mine or m is None:
        return None
    return [m * (smax(*[v[r] for v in mine]) if S.symbolic else max(v[r] for v in mine)) for r in range(n)]


def smax(*a):
    r = a[0]
    for x in a[1:]:
        r = ite(x > r, x, r)
    return r


@contract('C18', 'lookup', F, kind='bounded', modules=[demand_model], runs=500, max_paths=20000,
          bound='symbolic: 1 performance group, demand sample of 2-4 columns (1-3 directions at two locations and a second type), 1-2 realizations, any demand values and multiplier; concrete: up to 4 groups, 4 types, 3 directions, 20 realizations',
          covers=['directional', 'largest direction', 'not available', 'negative location', 'type multiplier'])
def lookup_(S):
    if S.symbolic:
        cols = [('PID', '1', '1'), ('PID', '1', '2'), ('PFA', '1', '1')] + S.case('more', [[], [('PID', '2', '1')], [('PID', '1', '0')]])
        n = S.case('n', [1, 2]) if len(cols) == 3 else 1
        cells = {c: [S.real(f'd{i}_{r}', lo=0) for r in range(n)] for i, c in enumerate(cols)}
        mult = {'ALL': S.real('m', gt=0), **({'PID': S.real('m2', gt=0)} if S.case('own multiplier', [False, True]) else {})}
        pars = {'a': (S.case('demand', ['Peak Interstory Drift Ratio', 'Peak Floor Acceleration']), S.case('offset', [0, 1, -1]), S.case('directional', [0, 1]))}
        offsets = S.case('offsets', [None, {'PFA': -1}, {'PID': -1, 'PFA': 1}])
        groups = [('a', S.case('loc', ['0', '1', '2']), S.case('dir', ['0', '1', '2']), '0')]
    else:
        n = S.int('n', 1, 20)
        types = [str(t) for t in S.rng.permutation(list(TYPES))[:S.int('types', 1, 4)]]
        stories = S.int('stories', 1, 12)
        cells = {}
        for t in types:
            for l in range(stories + 1):
                if S.rng.random() < 0.9:
                    for d in S.rng.permutation(['0', '1', '2', '3'])[:S.rng.integers(1, 4)]:
                        cells[TYPES[t], str(l), str(d)] = list(S.rng.lognormal(0, 1, n))
        if not cells:
            return
        keys = list(cells)
        cells = {keys[int(i)]: cells[keys[int(i)]] for i in S.rng.permutation(len(keys))}
        mult = {k: float(S.rng.uniform(1, 2)) for k in ['ALL', *[TYPES[t] for t in types]] if S.rng.random() < 0.7}
        pars = {f'c{i}': (str(S.rng.choice(types)), int(S.rng.integers(-1, 2)), int(S.rng.integers(0, 2))) for i in range(S.int('cmps', 1, 4))}
        offsets = {t: int(S.rng.integers(-1, 2)) for t in ['PFA', 'PFV', 'PID', 'SA'] if S.rng.random() < 0.4} or None
        groups = list(dict.fromkeys((str(S.rng.choice(list(pars))), str(S.rng.integers(0, stories + 1)), str(S.rng.integers(0, 4)), '0') for _ in range(S.int('groups', 1, 6))))
        S.drawn.update(pars=pars, offsets=offsets, groups=groups, mult=mult)
    sample = pd.DataFrame(np.array([[cells[c][r] for c in cells] for r in range(n)], dtype=object if S.symbolic else float), columns=pd.MultiIndex.from_tuples(list(cells), names=['type', 'loc', 'dir']))
    if not S.symbolic:
        snap = sample.copy(deep=True)
    model = pd.DataFrame({('Demand', 'Type'): [p[0] for p in pars.values()], ('Demand', 'Offset'): [p[1] for p in pars.values()], ('Demand', 'Directional'): [p[2] for p in pars.values()]}, index=list(pars))
    model.columns = pd.MultiIndex.from_tuples(model.columns)
    pg = pd.DataFrame({'Blocks': [1] * len(groups)}, index=pd.MultiIndex.from_tuples(groups, names=['cmp', 'loc', 'dir', 'uid']))
    mk, ok = dict(mult), copy.deepcopy(offsets)
    r = S.call(lookup, model, pg, offsets, mult, sample)
    want = {g: expected(S, pars[g[0]], g[1], g[2], offsets, mult, cells, n) for g in groups}
    if any(w is None for w in want.values()):
        S.refused('demands that are not available are reported', r, 'ValueError')
        S.cover('not available')
        if any(place(TYPES[pars[g[0]][0]], pars[g[0]], g[1], offsets) < 0 for g in groups):
            S.cover('negative location')
        return
    S.no_raise('demands are found', r)
    S.ensure('settings kept', list(mult) == list(mk) and offsets == ok)
    if not S.symbolic:
        S.ensure('demand sample kept', sample.equals(snap))
    S.ensure('every group gets a demand', set(r) == set(groups))
    for g in groups:
        d = pars[g[0]][2] and g[2] != '0'
        S.cover('directional' if d else 'largest direction')
        if not d and TYPES[pars[g[0]][0]] in mult:
            S.cover('type multiplier')
        S.ensure('one value per realization', len(r[g]) == n)
        for i in range(n):
            S.ensure('the demand the parameters ask for', S.eq(r[g][i], want[g][i]), f'{g}: {r[g][i]} instead of {want[g][i]}')


def expression(S, k, depth=3):
    """a random expression over X1..Xk and its meaning"""
    g = S.rng

    def node(d):
        u = g.random()
        if d == 0 or u < 0.3:
            if g.random() < 0.75:
                i = int(g.integers(k))
                return f'X{i + 1}', lambda x, i=i: x[i]
            c = int(g.integers(1, 9))
            return str(c), lambda x, c=c: c * np.ones_like(x[0])
        a, fa = node(d - 1)
        if u < 0.45:
            p = int(g.integers(2, 4))
            op = '^' if g.random() < 0.5 else '**'
            return f'({a}){op}{p}', lambda x: fa(x) ** p
        b, fb = node(d - 1)
        op = str(g.choice(['+', '-', '*', '/']))
        sp = ' ' if g.random() < 0.5 else ''
        return f'({a}{sp}{op}{sp}{b})', lambda x: {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.divide}[op](fa(x), fb(x))
    return node(depth)


@contract('C18', 'combined demands', [*F, 'pelicun.model.demand_model._clean_up_expression'], kind='runtime', runs=300, bound='up to 12 demands per expression of depth 3, 3 component types (some without expression), 10 realizations', covers=['combined', 'plain', 'repeated', 'more than nine', 'power'])
def combined(S):
    import re
    n = S.int('n', 1, 10)
    cells = {(t, str(l), d): list(S.rng.lognormal(0, 0.5, n)) for t in ('PID', 'PFA', 'PGA', 'SA_1.13', 'RID') for l in range(4) for d in ('1', '2')}
    sample = pd.DataFrame({c: v for c, v in cells.items()})
    sample.columns = pd.MultiIndex.from_tuples(list(cells), names=['type', 'loc', 'dir'])
    snap = sample.copy(deep=True)
    comp, rows = {}, {}
    for i in range(S.int('cmps', 1, 3)):
        if i == 0 or S.rng.random() < 0.5:
            for _ in range(50):
                k = int(S.rng.integers(1, 4)) if S.rng.random() < 0.8 else 12
                txt, f = expression(S, k, 3 if k < 10 else 4)
                if k >= 10:
                    extra = [f'X{j + 1}*{j + 2}' for j in range(k)]
                    txt, g0 = f'({txt})+' + '+'.join(extra), f
                    f = lambda x, g0=g0, k=k: g0(x) + sum(x[j] * (j + 2) for j in range(k))
                if {int(v) for v in re.findall(r'X(\d+)', txt)} == set(range(1, k + 1)):
                    break
            else:
                continue
        else:
            k, txt, f = 1, None, lambda x: x[0]
        pool = [(str(S.rng.choice(list(TYPES))), int(S.rng.integers(0, 2)), int(S.rng.integers(0, 2))) for _ in range(k)]
        pool = [p if TYPES[p[0]] not in ('PFV',) else ('Peak Interstory Drift Ratio', *p[1:]) for p in pool]
        if k > 1 and S.rng.random() < 0.4:
            pool[1] = pool[0]
            S.cover('repeated')
        comp[f'c{i}'] = (txt, f, pool)
        rows[f'c{i}'] = {**{(f'Demand{j + 1}' if j else 'Demand', w): p[x] for j, p in enumerate(pool) for x, w in enumerate(['Type', 'Offset', 'Directional'])}, ('Demand', 'Expression'): txt}
        S.cover('combined' if txt else 'plain')
        if k > 9:
            S.cover('more than nine')
        if txt and '^' in txt:
            S.cover('power')
    if not comp:
        return
    model = pd.DataFrame.from_dict(rows, orient='index')
    model.columns = pd.MultiIndex.from_tuples(model.columns)
    if S.rng.random() < 0.7:
        model = model.astype(object).where(model.notna(), np.nan)   # as it is in tables from files
    groups = [(c, str(l), d, '0') for c in comp for l in (1, 2) for d in ('1', '2', '0') if S.rng.random() < 0.6]
    if not groups:
        return
    S.drawn.update(rows={c: {str(k): v for k, v in r.items()} for c, r in rows.items()})
    pg = pd.DataFrame({'Blocks': [1] * len(groups)}, index=pd.MultiIndex.from_tuples(groups, names=['cmp', 'loc', 'dir', 'uid']))
    mult = {'ALL': 1.3, 'PFA': 1.1}
    r = S.call(lookup, model, pg, {}, mult, sample)
    S.no_raise('combined demands are evaluated', r)
    S.ensure('demand sample kept', sample.equals(snap))
    S.ensure('every group gets a demand', set(r) == set(groups))
    for g in groups:
        txt, f, pool = comp[g[0]]
        x = [np.array(expected(S, p, g[1], g[2], {}, mult, cells, n)) for p in pool]
        with np.errstate(all='ignore'):
            want = f(x)
        S.ensure('the expression as written from its own demands', bool(np.allclose(r[g], want, rtol=1e-9, atol=1e-12, equal_nan=True)), f'{g} {txt} {pool}: {r[g]} instead of {want}')


@contract('C18', 'unclear expressions', ['pelicun.model.demand_model._clean_up_expression'], kind='bounded', modules=[demand_model], runs=60, bound='every printable character and 8 others at 4 places of an expression, and texts listed in the harness (enumerated)', covers=['kept', 'power', 'refused', 'text'])
def unclear(S):
    kind = S.case('kind', ['character', 'text'])
    if kind == 'text':
        S.cover('text')
        t = S.case('text', ['X1 + __import__("os")', 'X1; X2', 'X1 == X2', 'a[0]', 'X1 % 2', 'X1,X2', "(lambda: 0)()", 'X1 if X2 else [0]', 'X1\n;X2', 'X1 # X2', 'X1 @ X2', 'X1 > X2', '{X1}'])
        S.refused('unclear expressions are refused', S.call(demand_model._clean_up_expression, t), 'ValueError')
        return
    c = S.case('character', [chr(i) for i in range(32, 127)] + ['\n', '\t', '\x00', '\u00e9', '\u00d7', '\u0663', '\u2212', '\\'])
    t = S.case('place', ['', 'X1 ', 'sqrt(X1^2 + X2)', '(']) + c + S.case('rest', ['', ' X2', ')\n'])
    r = S.call(demand_model._clean_up_expression, t)
    if c.isascii() and (c.isalnum() or c in '^+-*/() \n\t'):
        S.no_raise('accepted', r)
        S.cover('power' if '^' in t else 'kept')
        S.ensure('the same expression with powers in the form of the evaluator', r.replace(' ', '') == t.replace('^', '**').replace(' ', ''), f'{r} {t}')
    elif c.isascii() and c != '.' or c in '\u00d7\u2212':
        S.cover('refused')
        S.refused('unclear expressions are refused', r, 'ValueError')
    else:
        S.ensure('refused or kept', isinstance(r, Raised) or r.replace(' ', '') == t.replace('^', '**').replace(' ', ''))


@contract('C18', 'calculation', ['pelicun.model.damage_model.DamageModel_DS.obtain_ds_sample', *F], kind='runtime', runs=100, bound='up to 5 component types, 4 stories, 10 realizations', covers=['own settings'])
def calculation(S):
    seed = S.int('rng', 1, 10 ** 6)
    stories, n = S.int('stories', 1, 4), S.int('n', 1, 10)
    C = gen.components(S, stories, S.int('types', 1, 5))
    S.drawn['components'] = C
    opts, off, mult = {}, None, None
    if S.case('own settings', [False, True]):
        off = {'PFA': 0, 'PFV': -1}
        mult = {'ALL': 1.2, **{t: float(S.rng.uniform(1, 2)) for t in ('PID', 'PFA', 'PGA') if S.rng.random() < 0.6}}
        opts = {'DemandOffset': {'PFA': 0}, 'NonDirectionalMultipliers': {k: v for k, v in mult.items() if k != 'ALL'}}
        S.cover('own settings')
    a = full_assessment(Seed=seed, **opts)
    gen.demand(S, a, stories, n)
    gen.asset(S, a, stories, n, C)
    seen = {}
    real = damage_model.DamageModel_DS._evaluate_damage_state

    def spy(self, demand_dict, required, cap, lsds):
        for k, groups in required.items():
            for g in groups:
                assert g not in seen
                seen[tuple(g)] = np.array(demand_dict[k])
        return real(self, demand_dict, required, cap, lsds)
    snap = a.demand.sample.copy(deep=True)
    with quiet(), swap(damage_model.DamageModel_DS, '_evaluate_damage_state', spy):
        a.damage.load_model_parameters([gen.damage_table(C)], set(C))
        r = S.call(a.damage.calculate, None, S.int('batch', 1, 10))
    S.no_raise('calculated', r)
    S.ensure('demand sample kept', a.demand.sample.equals(snap))
    groups = [tuple(c) for c in a.asset.cmp_sample.columns]
    S.ensure('every group is checked once', set(seen) == set(groups))
    for g in groups:
        want = gen.expected_demand(a, C[g[0]], g[1], g[2], off, mult)
        S.ensure('the demand the parameters ask for', bool(np.allclose(seen[g], want, rtol=1e-12)), f'{g} {C[g[0]]}: {seen[g]} instead of {want}')
