"""C25 consequence scaling touches only the matching results"""
import os
import warnings
from itertools import product
import numpy as np
import pandas as pd
from pelicun import base
from pelicun.model import loss_model
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite
from contracts.util import *
from contracts import gen, c22

LM = 'pelicun.model.loss_model.LossModel.'


@contract('C25', 'scale selected results', ['pelicun.base.multiply_factor_multiple_levels'], kind='bounded', modules=[base], runs=150, max_paths=4000,
          bound='symbolic: tables of 6 labels by 2 entries with labels of 3 levels, both axes, 8 condition sets, arbitrary values and factor', covers=['0', '1', 'none'])
def scale(S):
    axis = S.case('axis', [0, 1])
    S.cover(str(axis))
    labels = [('Cost', 'a', '1'), ('Cost', 'a', '2'), ('Cost', 'b', '1'), ('Time', 'a', '1'), ('Time', 'b', '11'), ('Cost', '1', 'a')]
    names = ['dv', 'dmg', 'loc']
    cond = S.case('conditions', [{}, {'dv': 'Cost'}, {'dmg': 'a'}, {'loc': '1'}, {'dv': 'Cost', 'loc': '1'}, {'loc': '1', 'dmg': 'b'}, {'dv': 'Time', 'dmg': 'a', 'loc': '1'}, {'dv': 'Time', 'loc': '2'}])
    must = S.case('raise', [True, False])
    dt = object if S.symbolic else float
    if not S.symbolic:
        dt = [float, 'int64', 'Int64', 'Float64', 'float32'][int(S.rng.integers(5))]
        if axis == 0 and dt == 'Int64':   # rows of nullable integers are refused by pandas
            dt = 'int64'
        labels = [labels[i] for i in S.rng.permutation(6)]
    v = [[S.real(f'x{i}_{j}', scale=10) for j in range(2)] for i in range(6)]
    f = S.real('factor', scale=1)
    if dt in ('int64', 'Int64'):
        v = [[int(x) for x in r] for r in v]
    if dt == 'float32':
        v = [[float(np.float32(x)) for x in r] for r in v]
    arr = np.empty((6, 2), dtype=object)
    for i in range(6):
        for j in range(2):
            arr[i, j] = v[i][j]
    T = pd.DataFrame(arr, index=pd.MultiIndex.from_tuples(labels, names=names), columns=['p', 'q'])
    T = (T if axis == 0 else T.T).astype(dt)
    match = [all(l[names.index(k)] == x for k, x in cond.items()) for l in labels]
    ax0, ax1 = T.index.copy(), T.columns.copy()
    given = dict(cond)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = S.call(base.multiply_factor_multiple_levels, T, cond, f, axis=axis, raise_missing=must)
    if not any(match):
        S.cover('none')
        if must:
            S.refused('conditions that match nothing are reported', r, 'ValueError')
        else:
            S.no_raise('conditions that match nothing are ignored', r)
    else:
        S.no_raise('scaled', r)
    S.ensure('labels as they were', T.index.equals(ax0) and T.columns.equals(ax1) and T.index.names == ax0.names and T.columns.names == ax1.names)
    S.ensure('conditions as they were', cond == given)
    for i in range(6):
        for j in range(2):
            got = T.iloc[i, j] if axis == 0 else T.iloc[j, i]
            if match[i]:
                S.ensure('matching results are multiplied by the factor', S.eq(got, v[i][j] * f) if S.symbolic else bool(np.isclose(float(got), v[i][j] * f, rtol=1e-6 if dt == 'float32' else 1e-12)), f'{labels[i]} {dt}: {got} {v[i][j]} {f}')
            else:
                S.ensure('all other results are unchanged', S.eq(got, v[i][j]) if S.symbolic else float(got) == v[i][j], f'{labels[i]} {dt}')


@contract('C25', 'scaling specification', [LM + 'consequence_scaling', LM + '_apply_consequence_scaling', 'pelicun.base.multiply_factor_multiple_levels'], kind='runtime', runs=220, covers=['only damage states', 'only loss functions'])
def specification(S):
    rng = S.rng
    dvs = [d for d in c22.UNIT if rng.random() < .6] or ['Cost']
    n = int(rng.integers(1, 4))
    ds, lf = c22.random_losses(S, dvs, n, replacement=rng.random() < .3)
    if lf and not ds:
        S.cover('only loss functions')
    elif ds and not lf:
        S.cover('only damage states')
    a = c22.model(dvs)
    kind = str(rng.choice(['float', 'int64', 'Int64', 'Float64', 'mixed']))
    if kind in ('int64', 'Int64', 'mixed'):
        ds = {k: [float(round(x)) for x in v] for k, v in ds.items()}
        lf = {k: [float(round(x)) for x in v] for k, v in lf.items()}
    c22.tables(a, ds, lf, n, float)
    for m in (a.loss.ds_model, a.loss.lf_model):
        if m.sample is not None:
            if kind == 'mixed':
                m.sample = m.sample.convert_dtypes()
            elif kind != 'float':
                m.sample = m.sample.astype(kind)
    rules = []
    for _ in range(int(rng.integers(1, 6))):
        def pick(p, options):
            return str(rng.choice(options)) if rng.random() < p else None
        rules.append({'Decision Variable': str(rng.choice(dvs + ['Other'])), 'Component': pick(.5, ['c0', 'c1', 'c2', 'c', 'collapse']),
                      'Location': pick(.5, ['1', '2', '3', '10', '0', '1--2', '2--3', '1--1', '2--12', '0--2', '0--12', '0--0']), 'Direction': pick(.5, ['1', '2', '1--2', '0--1', '0']),
                      'Scale Factor': float(np.round(rng.choice([0.0, 1.0, 2.0, 0.37, 1.5, 3.3]), 2))})
    cols = ['Decision Variable', 'Component', 'Location', 'Direction', 'Scale Factor']
    t = pd.DataFrame(rules)[cols]
    for c in ['Component', 'Location', 'Direction']:
        if t[c].isna().all() and rng.random() < .5:
            t = t.drop(columns=c)
    t = t[[str(c) for c in rng.permutation(t.columns)]]
    before = c22.keep(a)
    with tempdir() as d:
        f = os.path.join(d, 'scaling.csv')
        t.to_csv(f, index=False)
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = S.call(a.loss.consequence_scaling, f)
    S.no_raise('scaled', r)

    def denotes(text, x):
        if text is None:
            return True
        if '--' in text:
            lo, hi = map(int, text.split('--'))
            return lo <= int(x) <= hi
        return text == x
    for name in ('ds_model', 'lf_model'):
        b, s = before[name], getattr(a.loss, name).sample
        if b is None:
            S.ensure('nothing is added', s is None)
            continue
        S.ensure('labels as they were', s.columns.equals(b.columns) and s.index.equals(b.index) and list(s.columns.names) == list(b.columns.names))
        for j, c in enumerate(b.columns):
            at = dict(zip(b.columns.names, c))
            fac = [q['Scale Factor'] for q in rules if q['Decision Variable'] == at['dv'] and (q['Component'] is None or q['Component'] == at['dmg']) and denotes(q['Location'], at['loc']) and denotes(q['Direction'], at['dir'])]
            was, now = b.iloc[:, j].to_numpy(dtype=float), s.iloc[:, j].to_numpy(dtype=float)
            if fac:
                S.ensure('matching results are multiplied by the factors of all their rules', np.allclose(now, was * np.prod(fac), rtol=1e-12), f'{kind} {c} {was} {now} {fac}')
            else:
                S.ensure('all other results are unchanged', np.array_equal(now, was), f'{kind} {c}')


@contract('C25', 'malformed specifications', [LM + 'consequence_scaling', LM + '_apply_consequence_scaling'], kind='runtime', runs=20)
def malformed(S):
    rng = S.rng
    a = c22.model(['Cost'])
    ds = {('Cost', 'La', 'a', '1', '1', '1', '0'): [1.0, 2.0]}
    c22.tables(a, ds, {}, 2, float)
    before = c22.keep(a)
    which = int(rng.integers(5))
    t = pd.DataFrame({'Decision Variable': ['Cost', 'Cost'], 'Component': ['a', 'a'], 'Scale Factor': [2.0, 3.0]})
    if which == 0:
        t = t.drop(columns='Decision Variable')
    elif which == 1:
        t = t.drop(columns='Scale Factor')
    elif which == 2:
        t.loc[1, 'Decision Variable'] = None
    elif which == 3:
        t.loc[1, 'Scale Factor'] = None
    with tempdir() as d, quiet():
        f = os.path.join(d, 's.csv')
        t.to_csv(f, index=False)
        if which < 4:
            r = S.call(a.loss.consequence_scaling, f)
        else:
            r = S.call(a.loss._apply_consequence_scaling, {'loc': '1'}, 2.0)
    S.refused('incomplete specifications are refused', r, 'ValueError')
    c22.frame(S, a, before)


RULES = [{}, {'Component': 'a'}, {'Location': '1'}, {'Location': '0--2'}, {'Direction': '2'}, {'Direction': '1--2'}, {'Component': 'b', 'Location': '10--12'}, {'Location': '1--2', 'Direction': '0--1'}, {'Component': '1', 'Direction': '1'}, {'Location': '01'}]
DS = [('Cost', 'La', 'a', '1', '1', '1', '0'), ('Cost', 'La', 'a', '2', '2', '2', '0'), ('Cost', 'a', 'b', '1', '11', '1', '1'), ('Time', 'La', 'a', '1', '1', '1', '0'), ('Time', 'L', '1', '1', '0', '0', '0')]
LF = [('Cost', 'Lc', 'c', '1', '1', '0'), ('Time', 'b', 'a', '12', '2', '0'), ('Cost', 'b', 'a', '0', '2', '1')]


@contract('C25', 'every kind of rule', [LM + 'consequence_scaling', LM + '_apply_consequence_scaling', 'pelicun.base.multiply_factor_multiple_levels'], kind='bounded', modules=[base, loss_model], runs=80,
          bound='one rule for one of two variables with ten kinds of conditions, alone or after one of three others; losses of 5 damage states and 3 loss functions, or only one of both (enumerated); all losses and factors symbolic', covers=['alone', 'after another', 'only damage states', 'only loss functions', 'both'])
def rules(S):
    which = S.case('losses', ['both', 'only damage states', 'only loss functions'])
    S.cover(which)
    first = S.case('before', [None, {'Decision Variable': 'Cost'}, {'Decision Variable': 'Time', 'Location': '0--1'}, {'Decision Variable': 'Cost', 'Component': 'a', 'Direction': '2'}])
    S.cover('alone' if first is None else 'after another')
    last = {'Decision Variable': S.case('variable', ['Cost', 'Time']), **S.case('rule', RULES)}
    table = ([first] if first else []) + [last]
    factor = [S.real(f'factor{i}', -1e3, 1e3) for i in range(len(table))]
    a = c22.model(['Cost', 'Time'])
    ds = {k: [S.real(f'd{i}', -1e6, 1e6)] for i, k in enumerate(DS)} if which != 'only loss functions' else {}
    lf = {k: [S.real(f'l{i}', -1e6, 1e6)] for i, k in enumerate(LF)} if which != 'only damage states' else {}
    c22.tables(a, ds, lf, 1, object if S.symbolic else float)
    before = c22.keep(a)
    text = pd.DataFrame(table)
    text['Scale Factor'] = [101.0 + i for i in range(len(table))] if S.symbolic else factor
    read = pd.read_csv

    def reader(*x, **k):
        t = read(*x, **k)
        if S.symbolic and 'Scale Factor' in t:
            col = np.empty(len(t), dtype=object)
            for i, y in enumerate(t['Scale Factor']):
                col[i] = factor[int(y) - 101]
            t['Scale Factor'] = col
        return t
    with tempdir() as d, quiet(), warnings.catch_warnings(), swap(pd, 'read_csv', reader):
        warnings.simplefilter('ignore')
        f = os.path.join(d, 'scaling.csv')
        text.to_csv(f, index=False)
        r = S.call(a.loss.consequence_scaling, f)
    S.no_raise('scaled', r)

    def denotes(text, x):
        if '--' in text:
            lo, hi = map(int, text.split('--'))
            return lo <= int(x) <= hi
        return text == x
    for name in ('ds_model', 'lf_model'):
        b, s = before[name], getattr(a.loss, name).sample
        if b is None:
            S.ensure('nothing is added', s is None)
            continue
        S.ensure('labels as they were', s.columns.equals(b.columns) and s.index.equals(b.index) and list(s.columns.names) == list(b.columns.names))
        for j, c in enumerate(b.columns):
            at = dict(zip(b.columns.names, c))
            want = b.iloc[0, j]
            for rule, x in zip(table, factor):
                if rule['Decision Variable'] == at['dv'] and ('Component' not in rule or rule['Component'] == at['dmg']) and all(denotes(rule[k], at[v]) for k, v in (('Location', 'loc'), ('Direction', 'dir')) if k in rule):
                    want = want * x
            S.ensure('multiplied by the factors of all matching rules, and by nothing else', S.eq(s.iloc[0, j], want) if S.symbolic else bool(np.isclose(float(s.iloc[0, j]), float(want), rtol=1e-12)), f'{c} {s.iloc[0, j]} {want}')
