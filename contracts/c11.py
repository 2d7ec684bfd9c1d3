"""C11 tables keep their data and labels when header format changes"""
import numpy as np
import pandas as pd
from pelicun import base
from pyvc.contract import contract, Raised
from contracts.util import *

WORDS = ['', 'PFA', 'PID', '1', '2', '10', 'B.10.31.001a', 'a b', 'x/y', '0', 'ALL', 'Größe', 'nan', '1.5']


def frame(S, nr, nc, index=None, columns=None, series=False):
    """table with arbitrary values"""
    c = np.empty((nr, nc), dtype=object)
    for i in range(nr):
        for j in range(nc):
            c[i, j] = S.real(f'cell{i}_{j}', scale=10)
    if not S.symbolic:
        c = c.astype(float)
    if series:
        return pd.Series(c[:, 0], index=index)
    return pd.DataFrame(c, index=index, columns=columns)


def cells_of(x):
    return x.to_numpy(dtype=object).reshape(len(x), -1)


def same_data(S, label, a, b):
    A, B = cells_of(a), cells_of(b)
    S.ensure(label, A.shape == B.shape, f'{A.shape} {B.shape}')
    for p, q in zip(A.flat, B.flat):
        S.ensure(label, S.exact(p, q))


def apart(S, new, old, changed):
    """later changes of the new table do not reach the table of the caller"""
    if changed and len(new):
        was = cells_of(new)[0, 0]
        if isinstance(new, pd.Series):
            new.iloc[0] = 12345.0
        else:
            new.iloc[0, 0] = 12345.0
        now = cells_of(old)[0, 0]
        S.ensure('the table of the caller is a table of its own', S.exact(now, was))
        if isinstance(new, pd.Series):
            new.iloc[0] = was
        else:
            new.iloc[0, 0] = was


def labels(S, n, lv):
    """n distinct labels of the given depth, in no particular order"""
    if S.symbolic:
        base_ = {1: ['b', 'a', 'c'], 2: [('b', ''), ('a', '10'), ('a', '2')], 3: [('b', '2', ''), ('a', '', '1'), ('a', '2', '0')]}[lv]
        return base_[:n]
    out = []
    for _ in range(200):
        t = tuple(str(S.rng.choice(WORDS)) for _ in range(lv))
        if t not in out:
            out.append(t)
        if len(out) == n:
            break
    return [t[0] for t in out] if lv == 1 else out


@contract('C11', 'there and back', ['pelicun.base.convert_to_SimpleIndex', 'pelicun.base.convert_to_MultiIndex'], kind='bounded', modules=[base],
          bound='up to 3x3 tables with 1-3 level headers (all values) in the symbolic run, up to 6x6 with 4 levels concretely', runs=250,
          covers=['rows', 'columns', 'single', 'inplace'])
def roundtrip(S):
    axis = S.case('axis', [0, 1])
    lv = S.size('levels', 1, 4, sym=(1, 3))
    nr, nc = S.size('rows', 1, 6, sym=(1, 3)), S.size('columns', 1, 6, sym=(1, 2))
    inplace = S.case('inplace', [False, True])
    series = axis == 0 and S.case('series', [False, True])
    n = nr if axis == 0 else nc
    L = labels(S, n, lv)
    if len(L) < n:
        return
    names = [None] * lv if S.case('names', [True, False]) else ['type', 'loc', 'dir', 'uid'][:lv]
    ix = pd.Index(L, name=names[0]) if lv == 1 else pd.MultiIndex.from_tuples(L, names=names)
    S.drawn_note = None
    df = frame(S, nr, 1 if series else nc, index=ix if axis == 0 else None, columns=None if axis == 0 else ix, series=series)
    if axis == 0 and not series:
        df.columns = [f'k{j}' for j in range(nc)]
    other0 = list(df.columns) if (axis == 0 and not series) else list(df.index)
    snap = df.copy(deep=True)
    get = (lambda t: t.index) if axis == 0 else (lambda t: t.columns)
    oth = (lambda t: t.columns) if axis == 0 and not series else (lambda t: t.index)
    r = S.call(base.convert_to_SimpleIndex, df, axis, inplace=inplace) if inplace else S.call(base.convert_to_SimpleIndex, df, axis)
    S.no_raise('every table is converted', r)
    S.cover('rows' if axis == 0 else 'columns')
    if inplace:
        S.ensure('in place', r is df)
        S.cover('inplace')
    else:
        S.ensure('header of the caller kept', get(df).equals(get(snap)) and list(get(df).names) == list(get(snap).names))
        same_data(S, 'data of the caller kept', df, snap)
        apart(S, r, df, lv > 1)
    S.ensure('single level header', get(r).nlevels == 1)
    want = ['-'.join(t) if lv > 1 else t for t in L]
    S.ensure('joined labels in order', list(get(r)) == want, f'{list(get(r))} {want}')
    if lv > 1:
        S.ensure('joined level names', get(r).name == '-'.join(n or '' for n in names), get(r).name)
    same_data(S, 'data kept', r, snap)
    S.ensure('other axis kept', list(oth(r)) == other0 if axis == 1 or not series else True)
    if lv == 1:
        S.ensure('single-level header unchanged', get(r).equals(get(snap)))
    if not S.symbolic and any('-' in w for t in L for w in (t if lv > 1 else (t,))):
        return
    mid = r.copy(deep=True)
    b = S.call(base.convert_to_MultiIndex, r, axis, inplace=inplace) if inplace else S.call(base.convert_to_MultiIndex, r, axis)
    S.no_raise('every simple table is converted', b)
    if not inplace:
        S.ensure('header of the caller kept', list(get(r)) == want)
        same_data(S, 'data of the caller kept', r, mid)
        apart(S, b, r, lv > 1)
    elif lv > 1:
        S.ensure('in place', b is r)
    S.ensure('labels restored in order', list(get(b)) == L and get(b).nlevels == lv, f'{list(get(b))} {L}')
    same_data(S, 'data kept', b, snap)
    S.ensure('other axis kept', list(oth(b)) == other0 if axis == 1 or not series else True)
    if lv == 1:
        S.ensure('headers without separators are unchanged', get(b).equals(get(snap)))
        S.cover('single')
    again = S.call(base.convert_to_MultiIndex, b, axis)
    S.no_raise('multi-level tables are accepted', again)
    S.ensure('multi-level headers are unchanged', list(get(again)) == L)


@contract('C11', 'padding', ['pelicun.base.convert_to_MultiIndex'], kind='runtime', bound='up to 6x6, labels of mixed depth', runs=150, covers=['padded', 'empty'])
def padding(S):
    """labels of different depth are padded with empty levels at the end"""
    axis = S.case('axis', [0, 1])
    n, m = S.int('n', 0, 6), S.int('m', 0, 4)
    L = []
    while len(L) < n:
        t = tuple(str(S.rng.choice(WORDS)) for _ in range(int(S.rng.integers(1, 5))))
        L.append(t)
    S.drawn['labels'] = L
    data = S.rng.random((n, m) if axis == 0 else (m, n))
    lab = pd.Index(['-'.join(t) for t in L], dtype=object)
    df = pd.DataFrame(data.copy())
    if axis == 0:
        df.index = lab
    else:
        df.columns = lab
    r = S.call(base.convert_to_MultiIndex, df, axis)
    S.no_raise('every simple table is converted', r)
    g = r.index if axis == 0 else r.columns
    k = max([len(t) for t in L], default=1)
    S.ensure('data', bool(np.array_equal(r.to_numpy(), data)))
    S.ensure('caller header', list(df.index if axis == 0 else df.columns) == list(lab))
    if n == 0:
        S.cover('empty')
        return
    if k > 1:
        S.ensure('padded labels in order', [tuple(t) for t in g] == [t + ('',) * (k - len(t)) for t in L], f'{list(g)}')
        S.cover('padded')
        back = base.convert_to_SimpleIndex(r, axis)
        gg = back.index if axis == 0 else back.columns
        S.ensure('back', [x.rstrip('-') for x in gg] == ['-'.join(t).rstrip('-') for t in L])
    else:
        S.ensure('unchanged', list(g) == list(lab))


@contract('C11', 'invalid axis', ['pelicun.base.convert_to_SimpleIndex', 'pelicun.base.convert_to_MultiIndex'], kind='runtime', bound='listed', runs=10, covers=['refused'])
def axis_(S):
    df = pd.DataFrame({'a-1': [1.0], 'b-2': [2.0]})
    S.refused('invalid axis', S.call(S.case('f', [base.convert_to_SimpleIndex, base.convert_to_MultiIndex]), df, S.case('axis', [2, -1, 7])), 'ValueError')
    S.cover('refused')


@contract('C11', 'dedupe_index', ['pelicun.base.dedupe_index'], kind='runtime', bound='tables of up to 8 rows with repeated labels', runs=120, covers=['deduped'])
def dedupe(S):
    """every row keeps its label and data, repeated labels are numbered in their order"""
    n, lv = S.int('n', 1, 8), S.int('levels', 1, 3)
    L = [tuple(str(S.rng.choice(['A', 'B', 'C10', 'C2'])) for _ in range(lv)) for _ in range(n)]
    S.drawn['labels'] = L
    ix = pd.MultiIndex.from_tuples(L, names=['cmp', 'loc', 'dir'][:lv])
    data = S.rng.random((n, 2))
    df = pd.DataFrame(data.copy(), index=ix, columns=['x', 'y'])
    r = S.call(base.dedupe_index, df.copy(), S.case('dtype', [str, int]))
    S.no_raise('accepted', r)
    S.ensure('names', list(r.index.names) == ['cmp', 'loc', 'dir'][:lv] + ['uid'])
    S.ensure('unique labels', r.index.is_unique and len(r) == n)
    seen = {}
    for t, row in zip(L, data):
        k = seen.get(t, 0)
        seen[t] = k + 1
        uid = k if r.index.get_level_values('uid').dtype.kind in 'iu' else str(k)
        S.ensure('row keeps its data', (*t, uid) in r.index and bool(np.array_equal(r.loc[(*t, uid)].to_numpy(dtype=float).ravel(), row)), f'{t} {uid}')
    S.cover('deduped')
