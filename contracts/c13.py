"""C13 component assignments expand to exactly the requested locations"""
import itertools
import numpy as np
import pandas as pd
from pelicun import base
from pelicun.model import asset_model, pelicun_model
from pyvc.contract import contract, Raised
from contracts.util import *

REAL = {u: f for c in base.parse_units(preserve_categories=True).values() for u, f in c.items()}


def model(stories):
    a = base_assessment()
    a.stories = stories
    return asset_model.AssetModel(a)


def denoted(txt, stories, direction=False):
    """the locations a string denotes, written from the documentation (None: not a valid string)"""
    one = {'all': lambda: list(range(1, stories + 1)), 'top': lambda: [stories], 'roof': lambda: [stories + 1]}

    def number(t):
        try:
            return int(t)
        except ValueError:
            pass
        try:
            v = float(t)
        except ValueError:
            return None
        return int(v) if v == int(v) else None

    if number(txt) is not None:
        return [number(txt)]
    if not direction and txt in one:
        return one[txt]()
    if '--' in txt:
        ends = []
        for p in txt.split('--'):
            v = number(p)
            if v is None and not direction and p in one:
                v = one[p]()[0]
            ends.append(v)
        if len(ends) != 2 or None in ends:
            return None
        return list(range(ends[0], ends[1] + 1))
    if ',' in txt:
        out = [number(p) if '.' not in p else None for p in txt.split(',')]
        return None if None in out else out
    return None


INVALID = ['', 'x', 'nan', '1--', '--3', '1--2--3', '1,', ',2', '1,a', '1--3,5', '1,3--5', 'ALL', 'all,1', 'roof,1', 'top1', '1-3', '1;2', 'inf', '1, 2--3', 'a--b', '1--b', 'all roof', 'None']


@contract('C13', 'location and direction strings', ['pelicun.model.pelicun_model.PelicunModel._get_locations', 'pelicun.model.pelicun_model.PelicunModel._get_directions'], kind='runtime',
          bound='every number to 60, every range within 0-25 and keyword ends, lists of up to 6 numbers, 1-60 stories', runs=25, covers=['keyword', 'range', 'list', 'refused'])
def strings(S):
    n = S.int('stories', 1, 60)
    m = model(n)

    def loc(t, **k):
        r = S.call(m._get_locations, t)
        want = denoted(t, n)
        S.no_raise(f'valid location', r)
        S.ensure('exactly the denoted locations', list(r) == [str(x) for x in want], f'{t!r} with {n} stories: {list(r)} instead of {want}')

    def dire(t):
        r = S.call(m._get_directions, t)
        want = denoted(t, n, True)
        S.no_raise('valid direction', r)
        S.ensure('exactly the denoted directions', list(r) == [str(x) for x in want], f'{t!r}: {list(r)} instead of {want}')

    for i in range(61):
        for t in (str(i), f'{i}.0', f' {i}'):
            loc(t), dire(t)
    for t in ('all', 'top', 'roof'):
        loc(t)
    S.cover('keyword')
    lo = int(S.rng.integers(0, 26))
    for hi in range(lo, 26):
        loc(f'{lo}--{hi}'), dire(f'{lo}--{hi}')
        S.cover('range')
    for t in [f'{i}--{k}' for i in range(n + 1) for k in ('top', 'roof')][-20:] + ['all--top', 'all--roof', 'top--roof', 'roof--roof', 'top--top']:
        loc(t)
    for _ in range(10):
        v = [str(x) for x in S.rng.permutation(70)[: S.rng.integers(2, 7)]]
        sep = str(S.rng.choice([',', ', ', ' , ']))
        loc(sep.join(v)), dire(sep.join(v))
        S.cover('list')
    for t in INVALID:
        S.refused('invalid locations are refused', S.call(m._get_locations, t), 'ValueError', 'OverflowError')
        S.cover('refused')
    for t in [*INVALID, 'all', 'top', 'roof']:
        S.refused('invalid directions are refused', S.call(m._get_directions, t), 'ValueError', 'OverflowError')
    m = model(None)
    for t in ('all', 'top', 'roof', '1--roof', 'all--3'):
        S.refused('keywords need the number of stories', S.call(m._get_locations, t), 'AssertionError', 'ValueError', 'TypeError')


@contract('C13', 'all short strings', ['pelicun.model.pelicun_model.PelicunModel._get_locations', 'pelicun.model.pelicun_model.PelicunModel._get_directions'], kind='bounded', runs=12, max_paths=20000,
          bound='1-12 stories; every number to 30, range within 0-9 or with keyword ends, list of two or three numbers within 0-4 (enumerated)', covers=['number', 'range', 'list', 'keyword', 'refused'])
def short(S):
    n = S.case('stories', list(range(1, 13)))
    kind = S.case('kind', ['number', 'range', 'list', 'keyword', 'refused'])
    m = model(n)
    S.cover(kind)
    ends = [str(i) for i in range(10)] + ['all', 'top', 'roof']
    words = {'number': [f(i) for i in range(31) for f in (str, lambda i: f'{i}.0', lambda i: f' {i} ')], 'range': [f'{x}--{y}' for x in ends for y in ends],
             'list': [s.join(map(str, v)) for k in (2, 3) for v in itertools.product(range(5), repeat=k) for s in (',', ', ')], 'keyword': ['all', 'top', 'roof'], 'refused': INVALID}[kind]
    for t in words:
        for f, direction in ((m._get_locations, False), (m._get_directions, True)):
            want, r = None if kind == 'refused' else denoted(t, n, direction), S.call(f, t)
            if want is None:
                S.refused('invalid strings are refused', r, 'ValueError', 'OverflowError')
            else:
                S.ensure('exactly the denoted ' + ('directions' if direction else 'locations'), not isinstance(r, Raised) and list(r) == [str(x) for x in want], f'{t!r} with {n} stories: {r} instead of {want}')


def scaled(fam, th, tr, f):
    t = list(th)
    if fam in (None, 'normal', 'normal_cov', 'lognormal', 'deterministic'):
        t[0] = t[0] * f
    elif fam == 'normal_std':
        t[0], t[1] = t[0] * f, t[1] * f
    elif fam == 'uniform':
        t = [x * f for x in t]
    return t, [x * f for x in tr]


FAMS = {None: 1, 'normal': 2, 'normal_std': 2, 'lognormal': 2, 'uniform': 2, 'deterministic': 1}


def rows(S, stories, k, random):
    out = []
    for i in range(k):
        c = str(S.rng.choice(['B.10.31.001', 'B.10.31.002', 'C.1', 'excessiveRID', 'D_2']))
        t = str(S.rng.choice(['1', '0', 'all', 'top', 'roof', '1--2', '2--roof', '1,3', '3,1', '12', '2.0', '1--12']))
        d = str(S.rng.choice(['0', '1', '2', '1,2', '2,1', '1--3', '1.0']))
        fam = S.rng.choice([None, *list(FAMS)[1:]]) if random else None
        fam = None if fam is None else str(fam)
        th = [float(S.rng.uniform(1, 30)), float(S.rng.uniform(0.05, 0.9))]
        if fam == 'uniform':
            th = [th[0], th[0] + th[1]]
        th = th[: FAMS[fam]]
        tr = [float('nan'), float('nan')]
        if fam in ('normal', 'normal_std', 'lognormal') and S.rng.random() < 0.5:
            tr = [th[0] * 0.2, th[0] * 3] if S.rng.random() < 0.7 else [th[0] * 0.2, float('nan')]
        out.append({'ID': c, 'Units': str(S.rng.choice(['ea', 'ft2', 'm2', 'ft', 'in', 'm3'])), 'Location': t, 'Direction': d, 'Family': fam, 'th': th, 'tr': tr,
                    'Blocks': int(S.rng.integers(1, 6)) if S.rng.random() < 0.7 else None})
    return out


@contract('C13', 'component model', ['pelicun.model.asset_model.AssetModel.load_cmp_model', 'pelicun.base.dedupe_index', 'pelicun.model.asset_model.AssetModel.generate_cmp_sample',
                                     'pelicun.model.asset_model.AssetModel._create_cmp_RVs', 'pelicun.model.asset_model.AssetModel.list_unique_component_ids'], kind='runtime', bound='up to 8 rows, 12 stories, 20 realizations', runs=150,
          covers=['repeated', 'expanded', 'sampled', 'file', 'blocks'])
def load(S):
    n = S.int('stories', 1, 12)
    k = S.int('rows', 1, 8)
    rnd = S.case('random quantities', [True, False])
    R = rows(S, n, k, rnd)
    S.drawn['rows'] = R
    t = pd.DataFrame({'Units': [r['Units'] for r in R], 'Location': [r['Location'] for r in R], 'Direction': [r['Direction'] for r in R],
                      **({'Family': [r['Family'] for r in R]} if rnd or S.case('family column', [True, False]) else {}),
                      'Theta_0': [r['th'][0] for r in R], 'Theta_1': [r['th'][1] if len(r['th']) > 1 else np.nan for r in R],
                      'TruncateLower': [r['tr'][0] for r in R], 'TruncateUpper': [r['tr'][1] for r in R],
                      **({'Blocks': [r['Blocks'] if r['Blocks'] else np.nan for r in R]} if S.case('blocks column', [True, False]) else {})},
                     index=[r['ID'] for r in R])
    blocks = 'Blocks' in t
    m = model(n)
    snap = t.copy(deep=True)
    with tempdir() as d:
        if S.case('file', [True, False]):
            t.to_csv(f'{d}/c_marginals.csv')
            r = S.call(m.load_cmp_model, f'{d}/c')
            S.cover('file')
        else:
            r = S.call(m.load_cmp_model, {'marginals': t})
    S.no_raise('valid models are loaded', r)
    S.ensure('table of the caller kept', t.equals(snap))
    P = m.cmp_marginal_params
    want = []
    for row in R:
        for a in denoted(row['Location'], n):
            for b in denoted(row['Direction'], n, True):
                want.append(((row['ID'], str(a), str(b)), row))
    idx = [tuple(x) for x in P.index]
    S.ensure('identifiers are unique', len(set(idx)) == len(idx), f'{idx}')
    S.ensure('one group per combination and definition', sorted(x[:3] for x in idx) == sorted(w[0] for w in want), f'{sorted(x[:3] for x in idx)} {sorted(w[0] for w in want)}')
    if len(want) > len(R):
        S.cover('expanded')

    def key(vals):
        return tuple(round(float(v), 9) if v is not None and not pd.isna(v) else None for v in vals)
    for g in {w[0] for w in want}:
        mine = [w[1] for w in want if w[0] == g]
        if len(mine) > 1:
            S.cover('repeated')
        got = P.loc[[x for x in P.index if tuple(x[:3]) == g]]
        S.ensure('consecutive identifiers', sorted(x[3] for x in got.index) == sorted(str(i) for i in range(len(mine))), f'{list(got.index)}')
        exp, act = [], []
        for row in mine:
            th, tr = scaled(row['Family'], row['th'], row['tr'], REAL[row['Units']])
            exp.append((str(row['Family']), key([*th, *([None] * (2 - len(th)))]), key(tr), (row['Blocks'] or 1) if blocks else 1))
        for _, a in got.iterrows():
            fam = a.get('Family')
            act.append((str(None if pd.isna(fam) else fam), key([a.get('Theta_0'), a.get('Theta_1')]), key([a.get('TruncateLower'), a.get('TruncateUpper')]), int(a['Blocks'])))
        def close(p, q):
            return all((x is None) == (y is None) and (x is None or abs(x - y) <= 1e-7 * max(1, abs(x))) for x, y in zip(p, q))
        left = list(act)
        for e in exp:
            hit = next((x for x in left if x[0] == e[0] and close(x[1], e[1]) and close(x[2], e[2]) and x[3] == e[3]), None)
            S.ensure('marginal parameters of the definition in base units', hit is not None, f'{g}: {e} not in {left}')
            left.remove(hit)
        if blocks:
            S.cover('blocks')
    S.ensure('component list', sorted(m.list_unique_component_ids()) == sorted({r['ID'] for r in R}))
    psnap = P.copy(deep=True)
    ns = S.int('sample size', 1, 20)
    r = S.call(m.generate_cmp_sample, ns)
    S.no_raise('sampled', r)
    S.cover('sampled')
    C = m.cmp_sample
    S.ensure('every group is sampled once', sorted(map(tuple, C.columns)) == sorted(idx), f'{list(C.columns)}')
    S.ensure('sample size', len(C) == ns)
    S.ensure('model parameters kept', P.equals(psnap))
    for c in idx:
        a = P.loc[c]
        v = C[c].to_numpy(dtype=float)
        fam = a.get('Family')
        if fam is None or pd.isna(fam) or fam == 'deterministic':
            S.ensure('deterministic quantity', bool(np.allclose(v, a['Theta_0'], rtol=1e-12, atol=0)))
        else:
            lo, hi = a.get('TruncateLower', np.nan), a.get('TruncateUpper', np.nan)
            S.ensure('quantity within its limits', bool(np.all(np.isfinite(v)) and (pd.isna(lo) or np.all(v >= lo * (1 - 1e-9))) and (pd.isna(hi) or np.all(v <= hi * (1 + 1e-9)))))
            if fam == 'uniform':
                S.ensure('uniform quantity in range', bool(np.all(v >= a['Theta_0'] - 1e-9) and np.all(v <= a['Theta_1'] + 1e-9)))
            S.ensure('realizations differ', len(np.unique(v)) == ns)
