"""C22-C24 aggregate losses, replacement, combined losses"""
import warnings
from itertools import product
import numpy as np
import pandas as pd
from pelicun import base, uq
from pelicun.model import loss_model
from pelicun import file_io
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite, smax, smin
from contracts.util import *
from contracts import gen

LM = 'pelicun.model.loss_model.LossModel.'
UNIT = {'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'lb', 'Energy': 'J', 'CO2': 'lb'}
FACTOR = {'USD_2011': 1.0, 'worker_day': 1.0, 'lb': gen.REAL['lb'], 'J': gen.REAL.get('J', 1.0)}
UNIT = {k: v for k, v in UNIT.items() if FACTOR.get(v) is not None}


def model(dvs):
    a = full_assessment()
    a.loss.decision_variables = tuple(dvs)
    a.loss.dv_units = {d: UNIT[d] for d in dvs}
    return a


def tables(a, ds, lf, n, dt):
    """put the detailed losses {(dv, loss, dmg, ds, loc, dir, uid): values}, {(dv, loss, dmg, loc, dir, uid): values} in the models"""
    def table(d, names):
        arr = np.empty((n, len(d)), dtype=dt)
        for j, v in enumerate(d.values()):
            for i in range(n):
                arr[i, j] = v[i]
        return pd.DataFrame(arr, columns=pd.MultiIndex.from_tuples(list(d), names=names))
    if ds:
        a.loss.ds_model.sample = table(ds, ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'])
    if lf:
        a.loss.lf_model.sample = table(lf, ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid'])


def detailed(ds, lf):
    """{(dv, loss, dmg, loc, dir, uid): [columns]} of both models"""
    out = [(k[:3] + k[4:], v) for k, v in ds.items()]
    return out + list(lf.items())


class soft:
    """in symbolic runs conversions of tables of symbols to float keep the symbols (reals stand for floats)"""

    def __init__(self, S):
        self.S = S

    def __enter__(self):
        if self.S.symbolic:
            real = pd.DataFrame.astype
            self.s = swap(pd.DataFrame, 'astype', lambda d, t, *p, **k: d.copy() if t is not bool and t is not int and not isinstance(t, (str, dict)) else real(d, t, *p, **k))
            self.s.__enter__()

    def __exit__(self, *x):
        if self.S.symbolic:
            self.s.__exit__(*x)


def total(x):
    r = 0
    for v in x:
        r = r + v
    return r


def expectation(items, n, dvs):
    """aggregate columns from {(dv, loss, dmg, loc, dir, uid): values} pairs"""
    out = {}
    for dv in dvs:
        mine = [(k, v) for k, v in items if k[0] == dv]
        if not mine:
            continue
        if dv == 'Time':
            locs = sorted({k[3] for k, _ in mine})
            per = [[total(v[i] for k, v in mine if k[3] == l) for l in locs] for i in range(n)]
            out['repair_time', 'sequential'] = [total(p) for p in per]
            par = []
            for p in per:
                m = p[0]
                for x in p[1:]:
                    m = ite(x > m, x, m)
                par.append(m)
            out['repair_time', 'parallel'] = par
        else:
            out[f'repair_{dv.lower()}', ''] = [total(v[i] for _, v in mine) for i in range(n)]
    return out


def compare(S, agg, want, n, dvs, label='totals of the component losses', tag='', units=UNIT):
    got = {}
    for c in agg.columns:
        key = c if isinstance(c, tuple) else (c, '')
        got[tuple(key)] = agg[c]
    S.ensure('one column for each decision variable with losses', set(got) == set(want), f'{tag}{sorted(got)} {sorted(want)}')
    S.ensure('one row for each realization', len(agg) == n and list(agg.index) == list(range(n)), f'{tag}{len(agg)}')
    unit = {f'repair_{d.lower()}': FACTOR[units[d]] for d in dvs}
    for k, w in want.items():
        f = unit[k[0]]
        for i in range(n):
            g = got[k].iloc[i]
            if S.symbolic:
                S.ensure(label, S.eq(g * int(f), w[i]), f'{tag}{k} {i}')
            else:
                S.ensure(label, bool(np.isclose(float(g) * f, float(w[i]), rtol=1e-9, atol=1e-9)), f'{tag}{k} {i}: {float(g) * f} {w[i]}')


def random_losses(S, dvs, n, replacement=False):
    """random detailed losses of damage-driven and loss-function-driven components"""
    rng = S.rng
    comps = [f'c{i}' for i in range(int(rng.integers(1, 4)))]
    ds, lf = {}, {}
    zero = float(rng.choice([0.0, 0.4]))

    def values():
        v = np.round(rng.uniform(0, 100, n), 3)
        v[rng.random(n) < zero] = 0.0
        return list(v)
    for dv in dvs:
        if rng.random() < 0.15:
            continue
        for c in comps:
            for loc, dr, uid in product([str(i) for i in range(1, 1 + int(rng.integers(1, 4)))] if rng.random() < .75 else [['10', '2', '1'], ['0', '1', '11'], ['0']][int(rng.integers(3))], ['1', '2'][:int(rng.integers(1, 3))] if rng.random() < .8 else ['0'], ['0', '1'][:int(rng.integers(1, 3))]):
                kind = int(rng.integers(5))
                if kind in (0, 1, 2):
                    for s in [str(x) for x in range(1, 1 + int(rng.integers(1, 4)))]:
                        ds[dv, 'L' + c, c, s, loc, dr, uid] = values()
                elif kind == 3:
                    lf[dv, 'L' + c, c, loc, dr, uid] = values()
    if replacement:
        for dv in dvs:
            if rng.random() < 0.8:
                for c in (['collapse', 'irreparable'] if rng.random() < .7 else ['collapse']):
                    v = np.round(rng.uniform(100, 500, n), 3)
                    v[rng.random(n) < 0.6] = 0.0
                    ds[dv, 'replacement', c, '1', '0', '1', '0'] = list(v)

    only = rng.random()
    if only < 0.15 and lf:
        ds = {}
    elif only < 0.3 and ds:
        lf = {}

    def shuffled(d):
        ks = list(d)
        if rng.random() < .5:
            rng.shuffle(ks)
            ks = [tuple(map(str, k)) for k in ks]
        return {k: d[k] for k in ks}
    return shuffled(ds), shuffled(lf)


def aggregate(S, a, *p, **k):
    with quiet(), warnings.catch_warnings(), soft(S):
        warnings.simplefilter('ignore')
        return S.call(a.loss.aggregate_losses, *p, future=True, **k)


def frame(S, a, before):
    """the detailed losses are as before"""
    for name, b in before.items():
        t = getattr(a.loss, name).sample
        if b is None:
            S.ensure('the detailed losses stay as they are', t is None, name)
        else:
            S.ensure('the detailed losses stay as they are', t.equals(b) and list(t.columns.names) == list(b.columns.names) and t.columns.equals(b.columns), name)


def keep(a):
    return {m: None if getattr(a.loss, m).sample is None else getattr(a.loss, m).sample.copy(deep=True) for m in ('ds_model', 'lf_model')}


# ---------------------------------------------------------------- C22

@contract('C22', 'aggregate losses', [LM + 'aggregate_losses', LM + '_aggregate_sample', LM + 'sample'], kind='runtime', runs=250)
def aggregates(S):
    dvs = [d for d in UNIT if S.rng.random() < .6] or ['Cost']
    S.rng.shuffle(dvs)
    n = int(S.rng.integers(1, 6))
    ds, lf = random_losses(S, dvs, n)
    a = model(dvs)
    tables(a, ds, lf, n, float)
    before = keep(a)
    r = aggregate(S, a)
    S.no_raise('aggregated', r)
    agg, flags = r
    if not ds and not lf:
        S.ensure('no losses are zero', (agg.to_numpy() == 0).all())
        S.stop()
    want = expectation(detailed(ds, lf), n, dvs)
    compare(S, agg, want, n, dvs)
    if ('repair_time', 'parallel') in want:
        S.ensure('parallel repairs never take longer', bool((agg['repair_time', 'parallel'] <= agg['repair_time', 'sequential'] + 1e-9).all()))
    S.ensure('nothing exceeded', flags.shape[1] == 0 or not flags.to_numpy().any())
    frame(S, a, before)
    r2 = aggregate(S, a)
    S.no_raise('aggregated again', r2)
    S.ensure('the same totals every time', r2[0].equals(agg))


@contract('C22', 'all losses', [LM + 'aggregate_losses', LM + '_aggregate_sample', LM + 'sample'], kind='bounded', modules=[loss_model, base, file_io], runs=40, max_paths=20000,
          bound='symbolic: 5 layouts of at most 8 detailed losses, 2 realizations, arbitrary values', covers=['0', '1', '2', '3', '4'])
def all_losses(S):
    lay = S.case('layout', [0, 1, 2, 3, 4])
    S.cover(str(lay))
    n = 2
    D, F = [], []
    dvs = ['Cost', 'Time']
    if lay == 0:
        D = [('Cost', 'La', 'a', '1', '1', '1', '0'), ('Cost', 'La', 'a', '2', '1', '1', '0'), ('Cost', 'La', 'a', '1', '2', '1', '0'), ('Time', 'La', 'a', '1', '1', '1', '0'), ('Time', 'La', 'a', '2', '2', '1', '0')]
    elif lay == 1:
        D = [('Time', 'La', 'a', '1', l, '1', u) for l in ('1', '2', '10') for u in ('0', '1')]
    elif lay == 2:
        F = [('Cost', 'La', 'a', '1', '1', '0'), ('Time', 'La', 'a', '1', '1', '0'), ('Time', 'La', 'a', '2', '2', '0')]
    elif lay == 3:
        D = [('Cost', 'La', 'a', '1', '1', '1', '0'), ('Time', 'Lb', 'b', '1', '2', '1', '0')]
        F = [('Time', 'Lc', 'c', '2', '1', '0'), ('Cost', 'La', 'a', '1', '1', '0')]
    else:
        dvs = ['Energy', 'Carbon', 'Time', 'Cost']
        D = [(d, 'La', 'a', '1', '1', '1', '0') for d in ('Carbon', 'Cost', 'Energy')]
        F = [(d, 'Lb', 'b', '1', '1', '0') for d in ('Energy', 'Carbon')]
    ds = {k: [S.real(f'd{j}_{i}', lo=0, scale=10) for i in range(n)] for j, k in enumerate(D)}
    lf = {k: [S.real(f'f{j}_{i}', lo=0, scale=10) for i in range(n)] for j, k in enumerate(F)}
    a = model(dvs)
    units = UNIT
    if S.symbolic:   # base units: conversions are the subject of C12
        units = a.loss.dv_units = {d: 'USD_2011' for d in dvs}
    tables(a, ds, lf, n, object if S.symbolic else float)
    r = aggregate(S, a)
    S.no_raise('aggregated', r)
    compare(S, r[0], expectation(detailed(ds, lf), n, dvs), n, dvs, units=units)


# ---------------------------------------------------------------- C23

def replaced(items, n):
    """exclusive replacement: realizations with a replacement loss keep only replacement losses"""
    hit = [Or(*[v[i] > 0 for k, v in items if k[1] == 'replacement']) for i in range(n)]
    return [(k, v if k[1] == 'replacement' else [ite(hit[i], 0, v[i]) for i in range(n)]) for k, v in items], hit


def thresholds(items, n, cons, ratios):
    """replacement triggered by losses above a share of the replacement consequence -> items, flags per decision variable"""
    flags = {}
    for dv, c in cons.items():
        mine = [(k, v) for k, v in items if k[0] == dv]
        flags[dv] = []
        for i in range(n):
            there = Or(*[v[i] > 0 for k, v in mine if k[1] == 'replacement'])
            s = total(v[i] for k, v in mine if k[1] != 'replacement')
            flags[dv].append(And(Not(there), s > c[i] * ratios[dv]) if dv in ratios else False)
    any_ = [Or(*[flags[dv][i] for dv in cons]) for i in range(n)]
    out = [(k, [ite(any_[i], 0, v[i]) for i in range(n)]) for k, v in items]
    for dv, c in cons.items():
        out.append(((dv, 'replacement', 'threshold', '0', '1', '0'), [ite(any_[i], c[i], 0) for i in range(n)]))
    return out, flags


def registry(S, a, cons):
    reg = uq.RandomVariableRegistry(a.options.rng)
    for dv, (fam, th) in cons.items():
        reg.add_RV(uq.rv_class_map(fam)(name=dv, theta=np.array(th)))
    return reg


def check_flags(S, flags, want, n, info=''):
    S.ensure('flags for every decision variable', set(flags.columns) == set(want) and len(flags) == n, f'{list(flags.columns)}')
    for dv, w in want.items():
        for i in range(n):
            S.ensure('reported exceedance', w[i] if bool(flags[dv].iloc[i]) else Not(w[i]), f'{dv} {i}: {flags[dv].iloc[i]} {w[i]} {info}')


@contract('C23', 'replacement', [LM + 'aggregate_losses', LM + '_make_replacement_exclusive', LM + '_apply_replacement_thresholds', LM + '_validate_input_replacement_thresholds'], kind='runtime', runs=300)
def replacement(S):
    dvs = [d for d in UNIT if S.rng.random() < .6] or ['Cost']
    n = int(S.rng.integers(1, 7))
    ds, lf = random_losses(S, dvs, n, replacement=S.rng.random() < .75)
    if not ds and not lf:
        S.stop()
    a = model(dvs)
    tables(a, ds, lf, n, float)
    before = keep(a)
    use = S.rng.random() < .7
    conf, cons = None, {}
    if use:
        cons = {}
        for dv in dvs:
            fam = str(S.rng.choice(['deterministic', 'normal_cov', 'lognormal']))
            size = float(np.round(S.rng.uniform(50, 600), 2))
            cons[dv] = (fam, [size] if fam == 'deterministic' else [size, 0.1])
        ratios = {dv: float(np.round(S.rng.uniform(0.2, 1.5), 2)) for dv in dvs if S.rng.random() < .9}
        if S.rng.random() < .2:   # a loss exactly at the threshold
            dv = str(S.rng.choice(dvs))
            mine = [k for k in ds if k[0] == dv and k[1] != 'replacement']
            if mine:
                for k in list(ds):
                    if k[0] == dv:
                        ds[k] = [0.0] * n
                ds[mine[0]] = [100.0] * n
                lf = {k: (v if k[0] != dv else [0.0] * n) for k, v in lf.items()}
                cons[dv], ratios[dv] = ('deterministic', [200.0]), 0.5
                tables(a, ds, lf, n, float)
                before = keep(a)
        conf = (registry(S, a, cons), ratios)
    r = aggregate(S, a, replacement_configuration=conf)
    S.no_raise('aggregated', r)
    items, _ = replaced(detailed(ds, lf), n)
    want_flags = {}
    if use:
        c = {dv: [float(x) for x in np.broadcast_to(conf[0].RV[dv].sample, n)] for dv in cons}
        items, want_flags = thresholds(items, n, c, ratios)
        check_flags(S, r[1], want_flags, n, [ds, lf, c, ratios])
    compare(S, r[0], expectation(items, n, dvs), n, dvs, label='replacement overrides other losses only where it is triggered')
    frame(S, a, before)


@contract('C23', 'all replacements', [LM + 'aggregate_losses', LM + '_make_replacement_exclusive', LM + '_apply_replacement_thresholds'], kind='bounded', modules=[loss_model, base, file_io], runs=60, max_paths=20000,
          bound='symbolic: 2 decision variables, at most 5 detailed losses, 1 realization, arbitrary values, replacement consequences and threshold ratios', covers=['0', '1', '2', '3'])
def all_replacements(S):
    lay = S.case('layout', [0, 1, 2, 3])
    S.cover(str(lay))
    n, dvs = 1, ['Cost', 'Time']
    D = [('Cost', 'La', 'a', '1', '1', '1', '0'), ('Time', 'La', 'a', '1', '1', '1', '0')]
    F = []
    if lay in (0, 2):
        D += [('Cost', 'replacement', 'collapse', '1', '0', '1', '0')]
    if lay == 2:
        D += [('Time', 'replacement', 'collapse', '1', '0', '1', '0')]
    if lay in (0, 3):
        F = [('Cost', 'Lb', 'b', '1', '1', '0')]
    if lay == 3:
        D = [d for d in D if d[0] == 'Cost'] + [('Cost', 'replacement', 'irreparable', '1', '0', '1', '0')]
    threshold = S.case('threshold', [False, True])
    ds = {k: [S.real(f'd{j}_{i}', lo=0, scale=10) for i in range(n)] for j, k in enumerate(D)}
    lf = {k: [S.real(f'f{j}_{i}', lo=0, scale=10) for i in range(n)] for j, k in enumerate(F)}
    a = model(dvs)
    units = a.loss.dv_units = {d: 'USD_2011' for d in dvs}
    tables(a, ds, lf, n, object if S.symbolic else float)
    conf, cons, ratios = None, {}, {}
    if threshold:
        cons = {dv: [S.real(f'c_{dv}', lo=0, scale=20)] for dv in dvs}
        ratios = {dv: S.real(f'r_{dv}', lo=0, scale=1) for dv in dvs}
        reg = uq.RandomVariableRegistry(a.options.rng)
        for dv in dvs:
            reg.add_RV(uq.rv_class_map('deterministic')(name=dv, theta=np.array([1.0])))

        def sampled(*p, **k):
            for dv in dvs:
                reg.RV[dv].sample = np.array(cons[dv], dtype=object if S.symbolic else float)
        conf = (reg, ratios)
        with swap(uq.RandomVariableRegistry, 'generate_sample', sampled):
            r = aggregate(S, a, replacement_configuration=conf)
    else:
        r = aggregate(S, a)
    S.no_raise('aggregated', r)
    items, _ = replaced(detailed(ds, lf), n)
    if threshold:
        items, want = thresholds(items, n, cons, ratios)
        check_flags(S, r[1], want, n)
    compare(S, r[0], expectation(items, n, dvs), n, dvs, label='replacement overrides other losses only where it is triggered', units={d: 'USD_2011' for d in dvs})


# ---------------------------------------------------------------- C24

def multilinear(axes, table, x):
    """value of the table at x, linear between the points of each axis"""
    if not axes:
        return table
    ax = axes[0]
    i = int(np.clip(np.searchsorted(ax, x[0], side='right') - 1, 0, len(ax) - 2))
    w = (x[0] - ax[i]) / (ax[i + 1] - ax[i])
    return (1 - w) * multilinear(axes[1:], table[i], x[1:]) + w * multilinear(axes[1:], table[i + 1], x[1:])


def combination(S, m, top):
    """table of m losses; its first entries along each axis are the losses it is for"""
    n = int(S.rng.integers(2, 5))
    axes = []
    for _ in range(m):
        x = np.concatenate([[0.0], np.sort(S.rng.choice(np.arange(1, 40), n - 2, replace=False)) * top / 40 if n > 2 else [], [top]])
        axes.append(np.round(x, 4))
    t = np.round(S.rng.uniform(0, 1.5 * top, [n] * m), 4)
    for j, x in enumerate(axes):
        at = [0] * m
        at[j] = slice(None)
        t[tuple(at)] = x
    return axes, t


@contract('C24', 'loss combinations', [LM + 'aggregate_losses', LM + '_apply_loss_combinations', LM + '_loss_combination_add_combinable', LM + '_identify_potential_groups', LM + '_map_component_ids_to_loss_ids', LM + '_deconstruct_loss_combination_arrays', LM + '_validate_input_loss_combination'], kind='runtime', runs=400)
def combinations(S):
    dvs = [d for d in UNIT if S.rng.random() < .5] or ['Cost']
    S.rng.shuffle(dvs)
    n = int(S.rng.integers(1, 5))
    rng = S.rng
    comps = [f'{x}{i}' for i, x in enumerate(rng.choice(list('zawfmq'), int(rng.integers(2, 6))))]
    rng.shuffle(comps)
    places = [(str(l), d, u) for l in range(1, 1 + int(rng.integers(1, 4))) for d in ['1', '2'][:int(rng.integers(1, 3))] for u in ['0', '1'][:int(rng.integers(1, 3))]]
    ds, lf = {}, {}
    ofkind = {c: bool(rng.integers(2)) for c in comps}
    where = {c: [p for p in places if rng.random() < .8] for c in comps}
    for dv in dvs:
        for c in comps:
            for p in where[c]:
                v = list(np.round(rng.uniform(0, 60, n), 3))
                if rng.random() < .2:
                    v = [0.0] * n
                if ofkind[c]:
                    v2 = list(np.round(rng.uniform(0, 39, n), 3))
                    ds[dv, 'L' + c, c, '1', *p] = v
                    if rng.random() < .5:
                        ds[dv, 'L' + c, c, '2', *p] = v2
                else:
                    lf[dv, 'L' + c, c, *p] = v
    if rng.random() < .5:
        ks = list(lf)
        rng.shuffle(ks)
        lf = {tuple(map(str, k)): lf[tuple(map(str, k))] for k in ks}
    if not ds and not lf:
        S.stop()
    summed = {}
    for k, v in detailed(ds, lf):
        summed[k] = [x + y for x, y in zip(summed.get(k, [0.0] * n), v)]
    request, items, top = {}, dict(summed), 101.0
    for dv in dvs:
        if rng.random() < .25:
            continue
        left = list(comps)
        rng.shuffle(left)
        req = {}
        while len(left) >= 2 and rng.random() < .8:
            m = min(len(left), int(rng.choice([2, 2, 3])))
            group, left = tuple(map(str, left[:m])), left[m:]
            at = [p for p in places if all((dv, 'L' + c, c, *p) in summed for c in group)]
            if not at:
                continue
            axes, t = combination(S, m, top)
            req[group] = t
            for p in at:
                cols = [(dv, 'L' + c, c, *p) for c in group]
                items[(dv, 'combination', str(group), *p)] = [multilinear(axes, t, [items[c][i] for c in cols]) for i in range(n)]
                for c in cols:
                    del items[c]
        if req:
            request[dv] = req
    a = model(dvs)
    tables(a, ds, lf, n, float)
    before = keep(a)
    given = {dv: {k: t.copy() for k, t in q.items()} for dv, q in request.items()}
    if request and rng.random() < .08:
        dv = str(rng.choice(list(request)))
        group = list(request[dv])[0]
        c = next(k for k in list(ds) + list(lf) if k[0] == dv and k[2] == group[0] and all((dv, 'L' + g, g, *(k[4:] if len(k) == 7 else k[3:])) in summed for g in group))
        t = a.loss.ds_model.sample if len(c) == 7 else a.loss.lf_model.sample
        t.loc[t.index[0], c] = 2 * top
        S.refused('losses outside of the table', aggregate(S, a, loss_combination=request), 'ValueError')
        S.stop()
    r = aggregate(S, a, loss_combination=request)
    S.no_raise('combined', r)
    compare(S, r[0], expectation(list(items.items()), n, dvs), n, dvs, label='combined with the table of the decision variable, other losses as they were')
    frame(S, a, before)
    S.ensure('the request stays as it is', all(np.array_equal(t, request[dv][k]) for dv, q in given.items() for k, t in q.items()))


def at(axes, table, x):
    """multilinear for symbolic losses: the cell is found by comparisons"""
    if not axes:
        return table
    ax = [float(v) for v in axes[0]]
    for i in range(len(ax) - 1):
        if i == len(ax) - 2 or bool(x[0] <= ax[i + 1]):
            w = (x[0] - ax[i]) / (ax[i + 1] - ax[i])
            return (1 - w) * at(axes[1:], table[i], x[1:]) + w * at(axes[1:], table[i + 1], x[1:])


class Interpolator:
    """contract of scipy.interpolate.RegularGridInterpolator: linear between the points of the grid, losses outside of it are refused"""

    def __init__(self, points, values):
        if len(points) != np.ndim(values):
            raise ValueError('dimensions')
        for p, n in zip(points, np.shape(values)):
            q = [float(v) for v in p]
            if len(q) != n or sorted(set(q)) != q:
                raise ValueError('points')
        self.points, self.values = points, values

    def __call__(self, x):
        out = np.empty(len(x), dtype=object)
        for i, row in enumerate(x):
            for v, p in zip(row, self.points):
                if not bool(And(v >= float(p[0]), v <= float(p[-1]))):
                    raise ValueError('One of the requested xi is out of bounds')
            out[i] = at(self.points, self.values, list(row))
        return out


@contract('C24', 'all combinations', [LM + 'aggregate_losses', LM + '_apply_loss_combinations', LM + '_loss_combination_add_combinable', LM + '_identify_potential_groups', LM + '_map_component_ids_to_loss_ids', LM + '_deconstruct_loss_combination_arrays'], kind='bounded',
          modules=[loss_model, base, file_io], extra={loss_model: {'RegularGridInterpolator': Interpolator}}, runs=80, max_paths=20000,
          bound='symbolic: 4 layouts of at most 7 losses, one realization, arbitrary losses and arbitrary entries of tables of 2 or 3 points (RegularGridInterpolator by contract)', covers=['0', '1', '2', '3', 'refused', 'combined'])
def all_combinations(S):
    lay = S.case('layout', [0, 1, 2, 3])
    S.cover(str(lay))
    dvs = ['Cost', 'Time']
    P, Q, R = ('1', '1', '0'), ('2', '1', '0'), ('1', '2', '1')
    # (dv, component, place), the functions, the groups
    if lay == 0:
        items, fun, groups = [('Cost', 'a', P), ('Cost', 'b', P), ('Cost', 'c', P), ('Time', 'a', P), ('Time', 'b', P)], '', {'Cost': [('b', 'a')]}
    elif lay == 1:
        items, fun, groups = [('Cost', 'a', P), ('Cost', 'b', P), ('Cost', 'a', Q), ('Cost', 'c', R), ('Cost', 'b', R), ('Cost', 'a', R)], 'b', {'Cost': [('a', 'b')]}
    elif lay == 2:
        items, fun, groups = [('Cost', 'a', P), ('Cost', 'b', P), ('Time', 'a', P), ('Time', 'b', P)], 'a', {'Time': [('a', 'b')], 'Cost': [('b', 'a')]}
    else:
        items, fun, groups = [('Cost', 'c', P), ('Cost', 'a', P), ('Cost', 'b', P), ('Time', 'd', P)], 'c', {'Cost': [('b', 'c', 'a')]}
    val = {k: S.real('loss ' + '-'.join(map(str, k[:2])) + ''.join(k[2]), lo=0, scale=12) for k in items}
    request, axes = {}, {}
    for dv, gs in groups.items():
        request[dv] = {}
        for g in gs:
            x = [[0.0, 4.0, 10.0], [0.0, 10.0]][S.case(f'points of {dv}', [0, 1]) if lay in (0, 2) else 1]
            t = np.empty((len(x),) * len(g), dtype=object)
            for ix in product(range(len(x)), repeat=len(g)):
                off = [j for j in ix if j]
                t[ix] = x[off[0]] if len(off) == 1 else 0.0 if not off else S.real(f'table {dv} {ix}', scale=20)
            if not S.symbolic:
                t = t.astype(float)
            request[dv][g], axes[dv, g] = t, [x] * len(g)
    ds = {(dv, 'L' + c, c, '1', *p): [v] for (dv, c, p), v in val.items() if c not in fun}
    lf = {(dv, 'L' + c, c, *p): [v] for (dv, c, p), v in val.items() if c in fun}
    a = model(dvs)
    units = UNIT
    if S.symbolic:
        units = a.loss.dv_units = {d: 'USD_2011' for d in dvs}
    tables(a, ds, lf, 1, object if S.symbolic else float)
    r = aggregate(S, a, loss_combination=request)
    rest, used = dict(val), []
    for dv, gs in groups.items():
        for g in gs:
            for p in {k[2] for k in val}:
                if all((dv, c, p) in val for c in g):
                    used += [(dv, c, p) for c in g]
    inside = And(*[val[k] <= 10.0 for k in used])
    if isinstance(r, Raised):
        S.refused('losses outside of the table', r, 'ValueError')
        S.ensure('only losses outside of the table are refused', Not(inside))
        S.cover('refused')
        return
    S.ensure('losses outside of the table are refused', inside)
    items = {}
    for k, v in val.items():
        if k not in used:
            items[(k[0], 'L' + k[1], k[1], *k[2])] = [v]
    for dv, gs in groups.items():
        for g in gs:
            for p in {k[2] for k in used if k[0] == dv}:
                items[(dv, 'combination', str(g), *p)] = [at(axes[dv, g], request[dv][g], [val[dv, c, p] for c in g])]
    compare(S, r[0], expectation(list(items.items()), 1, dvs), 1, dvs, label='combined with the table of the decision variable, other losses as they were', units=units)
    S.cover('combined')
