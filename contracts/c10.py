"""C10 configuration paths read back what was written and nothing else changes"""
import copy
import numpy as np
import pandas as pd
from pelicun import base
from pyvc.contract import contract, Raised
from contracts.c09 import Tok, eqtree, tree

NAN = float('nan')
MISSING = object()
VALUES = [None, NAN, np.float64('nan'), pd.NA, pd.NaT, {}, [], 0, 0.0, False, True, '', 'x', [1], [NAN], [None], [[]], [{}], {'k': None}, {'k': {}},
          (), (1,), 3, 2.5, 'None', 'N/A', np.int64(0), np.array([1.0, 2.0]), np.array([]), b'', {'a': 1}]
EMPTY = {0, 1, 2, 3, 4, 5, 6}


def look(d, keys):
    for k in keys:
        if not isinstance(d, dict) or k not in d:
            return MISSING
        d = d[k]
    return d


def paths(d, p=()):
    for k in d:
        yield (*p, k)
        if isinstance(d[k], dict):
            yield from paths(d[k], (*p, k))


def shapes(S):
    """nested dictionaries around a path: each step missing, a value, a group with or without siblings"""
    d = {}
    if S.case('sibling', [False, True]):
        d['s'] = Tok('s')
    cur = d
    for k in ('a', 'b', 'c'):
        kind = S.case(k, ['missing', 'group', 'group+', 'value', 'none', 'list', 'empty'])
        if kind == 'missing':
            break
        if kind in ('value', 'none', 'list'):
            cur[k] = Tok(k) if kind == 'value' else (None if kind == 'none' else [Tok(k)])
            break
        cur[k] = {}
        cur = cur[k]
        if kind == 'empty':
            break
        if kind == 'group+':
            cur['o'] = Tok('o' + k)
    return d


@contract('C10', 'get', ['pelicun.base.get'], kind='bounded', bound='paths of up to 3 keys through every shape of nested dictionary (values arbitrary)',
          modules=[base], runs=60, covers=['found', 'default'], max_paths=20000)
def get(S):
    d = shapes(S)
    n = S.case('depth', [1, 2, 3])
    keys = ('a', 'b', 'c')[:n]
    sl = S.case('slash', ['', '/'])
    path = sl + '/'.join(keys) + S.case('trailing', ['', '/'])
    dd = copy.deepcopy(d)
    default = Tok('default')
    r = S.call(base.get, d, path, default)
    S.no_raise('reading never fails', r)
    S.ensure('configuration not changed by reading', eqtree(d, dd))
    v = look(d, keys)
    S.ensure('stored value or default', r is (default if v is MISSING else v), f'{r!r}, stored {v!r}')
    S.cover('default' if v is MISSING else 'found')
    S.ensure('default of the default', base.get(d, path) is (None if v is MISSING else v))
    S.ensure('no configuration', base.get(None, path, default) is default)


@contract('C10', 'update', ['pelicun.base.update'], kind='bounded', bound='paths of up to 3 keys through every shape of nested dictionary (values arbitrary)',
          modules=[base], runs=60, covers=['written', 'kept'], max_paths=20000)
def update(S):
    d = shapes(S)
    n = S.case('depth', [1, 2, 3])
    keys = ('a', 'b', 'c')[:n]
    path = S.case('slash', ['', '/']) + '/'.join(keys)
    only = S.case('only_if_empty_or_none', [False, True])
    before = copy.deepcopy(d)
    v = Tok('new')
    r = S.call(base.update, d, path, v, only_if_empty_or_none=only) if only else S.call(base.update, d, path, v)
    S.no_raise('writing never fails', r)
    old = look(before, keys)
    empty = old is MISSING or old is None or old in ({}, [])
    if only and not empty:
        S.ensure('specified values are never overwritten', look(d, keys) is old or eqtree(look(d, keys), old))
        S.cover('kept')
    else:
        S.ensure('the path returns the new value', look(d, keys) is v and base.get(d, path) is v)
        S.cover('written')
    frame(S, before, d, keys)


def frame(S, before, after, keys):
    """all other paths keep their value, no other path appears"""
    for p in set(paths(before)) | set(paths(after)):
        if p[:len(keys)] == keys or keys[:len(p)] == p:
            continue
        a, b = look(before, p), look(after, p)
        S.ensure('other paths keep their value', a is not MISSING and b is not MISSING and eqtree(a, b), f'{p}: {a!r} -> {b!r}')


@contract('C10', 'is_unspecified', ['pelicun.base.is_unspecified', 'pelicun.base.is_specified'], kind='bounded',
          bound='the listed kinds of value; every real number', modules=[base], runs=80, covers=['empty', 'specified', 'missing'])
def unspecified(S):
    i = S.case('value', list(range(len(VALUES) + 2)))
    path = S.case('path', ['a', '/a', 'g/a', '/g/a/'])
    d = {'o': 1}
    tgt = d
    if 'g' in path:
        d['g'] = tgt = {'o': 2}
    if i == len(VALUES):
        S.cover('missing')
    elif i == len(VALUES) + 1:
        tgt['a'] = S.real('number')
    else:
        tgt['a'] = VALUES[i]
    keys0 = {k: list(v) if isinstance(v, dict) else None for k, v in d.items()}
    r, q = S.call(base.is_unspecified, d, path), S.call(base.is_specified, d, path)
    S.no_raise('every value can be tested', r)
    S.no_raise('every value can be tested', q)
    want = i == len(VALUES) or i in EMPTY
    S.ensure('missing, None, NaN, empty dict or list', bool(r) == want, f'{tgt.get("a")!r}: {r}')
    S.ensure('the opposite', bool(q) == (not want))
    S.ensure('not changed', keys0 == {k: list(v) if isinstance(v, dict) else None for k, v in d.items()})
    S.cover('empty' if want else 'specified')


@contract('C10', 'histories', ['pelicun.base.get', 'pelicun.base.update', 'pelicun.base.is_unspecified'], kind='runtime',
          bound='sequences of 6 writes to random trees', runs=250, covers=['written', 'kept'])
def histories(S):
    g = S.rng
    d = tree(S)
    S.drawn['start'] = copy.deepcopy(d)
    log = S.drawn.setdefault('writes', [])
    for _ in range(6):
        keys = tuple(str(k) for k in g.choice(list('abcd'), size=int(g.integers(1, 5))))
        path = '/' * int(g.integers(2)) + '/'.join(keys) + '/' * int(g.integers(2))
        v = VALUES[int(g.integers(len(VALUES)))]
        v = copy.deepcopy(v) if isinstance(v, (dict, list)) else v
        if isinstance(v, (np.ndarray, np.generic)):
            v = 1
        only = bool(g.integers(2))
        before = copy.deepcopy(d)
        log.append([path, repr(v), only])
        want = base.get(d, path, MISSING)
        S.ensure('reading changes nothing', same_tree(d, before))
        S.ensure('stored value or default', want is look(d, keys), path)
        r = S.call(base.update, d, path, v, only_if_empty_or_none=only)
        S.no_raise('writing never fails', r)
        old = look(before, keys)
        empty = old is MISSING or old is None or (isinstance(old, (dict, list)) and not old) or (not isinstance(old, (dict, list, tuple, bytes, str)) and pd.isna(old))
        if only and not empty:
            S.ensure('specified values are never overwritten', same_tree(look(d, keys), old))
            S.cover('kept')
        else:
            S.ensure('the path returns the new value', base.get(d, path) is v)
            S.cover('written')
        frame2(S, before, d, keys)


def same_tree(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same_tree(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same_tree, a, b))
    return a is b or (type(a) is type(b) and (a == b or repr(a) == repr(b)))


def frame2(S, before, after, keys):
    for p in set(paths(before)) | set(paths(after)):
        if p[:len(keys)] == keys or keys[:len(p)] == p:
            continue
        S.ensure('other paths keep their value', same_tree(look(before, p), look(after, p)), f'{p}')
