"""Library contracts: what numpy / scipy / pandas / builtins do with symbolic operands.

`install(modules)` rebinds, in the *globals* of the pelicun modules, every name whose value is
one of the libraries below to a facade.  A facade forwards to the real library unless an argument is
symbolic.  These contracts are trusted; they are cross-checked against the real libraries by the
concrete runs of every check.
"""
from __future__ import annotations
import builtins
import math
import numpy as np
import pandas as pd
import scipy.stats
import z3
from . import core, arrays
from .core import SReal, SBool, SInt, NAN, INF, Unsupported, is_sym, special
from .arrays import SArr, OArr, Space, has_sym, elementwise, wrap, as_data, obj_array, reduce_, ABSENT

used = set()      # library contracts actually exercised in this process


def anysym(args, kwargs):
    return any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values())


# ------------------------------------------------------------------------------ numpy
def np_array(x, dtype=None, **k):
    r = obj_array(x)
    if dtype is not None:
        return arrays.cast(r, dtype)
    return r


def np_asarray(x, dtype=None, **k):
    if isinstance(x, (SArr, OArr)) and dtype is None:
        return x
    return np_array(x, dtype)


def np_atleast_1d(x):
    if isinstance(x, (SArr, arrays.FnArr)):
        return x
    if is_sym(x):
        d = np.empty(1, dtype=object)
        d[0] = x
        return d.view(OArr)
    if isinstance(x, (list, tuple)):
        return obj_array(x)
    return np.atleast_1d(x)


def np_atleast_2d(x):
    if isinstance(x, SArr):
        if x.ndim >= 2:
            return x
        return SArr(x.data[None, :], (None, *x.spaces))
    if is_sym(x) or isinstance(x, (list, tuple)):
        x = np_atleast_1d(x)
        return np_atleast_2d(x) if isinstance(x, SArr) else np.ndarray.__getitem__(x, None) if x.ndim == 1 else x
    return x if x.ndim >= 2 else np.ndarray.__getitem__(x, None)


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if not is_sym(v):
            if special(v):
                if math.isnan(float(v)):
                    return nan
                if v > 0:
                    return float(np.finfo(float).max) if posinf is None else posinf
                return float(np.finfo(float).min) if neginf is None else neginf
        return v
    return elementwise(f, x)


def np_tile(a, reps):
    if isinstance(a, arrays.FnArr) and isinstance(reps, SInt):
        return CyclicArr(a, reps * a.space.len)
    if isinstance(reps, tuple) and len(reps) == 2 and reps[1] == 1 and isinstance(reps[0], SInt):
        sp = space_of(reps[0])
        d, s = as_data(a)
        if d.ndim == 1:
            d = d[None, :]
        if d.shape[0] != 1 or any(x is not None for x in s):
            raise Unsupported('tile of a matrix')
        return SArr(d.copy(), (sp, *([None] * (d.ndim - 1))))
    if isinstance(reps, (int, np.integer)) or (isinstance(reps, tuple) and all(isinstance(r, (int, np.integer)) for r in reps)):
        d, s = as_data(a)
        if all(x is None for x in s):
            return np.tile(d, reps).view(OArr)
    if isinstance(reps, SInt):
        d, s = as_data(a)
        if d.ndim == 1 and d.size >= 1 and all(x is None for x in s):
            return CyclicArr(d, reps * d.size)
    raise Unsupported('np.tile with symbolic operands')


def np_take(a, indices, axis=None, **k):
    if k or not (axis is None or axis == 0) or len(getattr(a, 'shape', (0, 0))) != 1:
        raise Unsupported('np.take of a matrix')
    return a[indices]


def np_resize(a, n):
    if isinstance(n, tuple) and len(n) == 1:
        n = n[0]
    if isinstance(n, SInt):
        if isinstance(a, arrays.FnArr):
            return SampleSeq(a, n)
        d, s = as_data(a)
        if d.ndim == 1 and d.size >= 1 and all(x is None for x in s):
            return SampleSeq(d, n)
    raise Unsupported('np.resize with symbolic operands')


class CyclicArr:
    """concrete data repeated up to a symbolic length; sliced to a symbolic size"""

    def __init__(self, d, length):
        self.d, self.length = d, length

    def __getitem__(self, key):
        if isinstance(key, slice) and key.start is None and key.step is None and isinstance(key.stop, SInt):
            n = key.stop
            c = core.ctx()
            # the slice has the requested length only if the tiled array is long enough
            if not c.branch(z3.And(n.t <= self.length.t, n.t >= 0)):
                n = self.length if c.branch(n.t > 0) else n
            return SampleSeq(self.d, n)
        raise Unsupported('slicing of a tiled array')


class SampleSeq:
    """sequence of symbolic length n whose entry at i is d[i mod len(d)]"""

    def __init__(self, d, n):
        self.d, self.n = d, n

    def at(self, i):
        if isinstance(self.d, arrays.FnArr):
            return self.d.at(i % self.d.space.len)
        j = i % len(self.d)
        out = None
        for k, v in enumerate(self.d):
            out = v if out is None else core.ite(j == k, v, out)
        return out


_spaces = {}


def register_space(sp):
    _spaces[z3.simplify(sp.len.t).sexpr()] = sp
    return sp


def space_of(n):
    key = z3.simplify(n.t).sexpr()
    if key in _spaces:
        return _spaces[key]
    # a new index set of that size
    sp = Space.__new__(Space)
    sp.name, sp.parent, sp.len = 'derived', None, n
    return register_space(sp)


def _shape_axes(shape):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    ext, sps = [], []
    for s in shape:
        if isinstance(s, SInt):
            ss = z3.simplify(s.t)
            if z3.is_int_value(ss):
                ext.append(ss.as_long())
                sps.append(None)
            else:
                ext.append(1)
                sps.append(space_of(s))
        else:
            ext.append(int(s))
            sps.append(None)
    return tuple(ext), tuple(sps)


def np_full(shape, fill_value, dtype=None, **k):
    ext, sps = _shape_axes(shape)
    if isinstance(fill_value, bool) and all(s is None for s in sps):
        return np.full(ext, fill_value)
    d = np.empty(ext, dtype=object)
    fd, fs = as_data(fill_value)
    d[...] = fd if fd.ndim else fd.item()
    r = wrap(d, sps) if any(s is not None for s in sps) else d.view(OArr)
    if isinstance(r, SArr):
        r.uniform = True
    return r


def np_zeros(shape, dtype=None, **k): return np_full(shape, 0 if dtype in (int, 'int') else (False if dtype is bool else 0.0))
def np_ones(shape, dtype=None, **k): return np_full(shape, 1 if dtype in (int, 'int') else (True if dtype is bool else 1.0))
def np_full_like(a, fill, dtype=None, **k): return elementwise(lambda v: core_fill(fill), a)
def core_fill(f): return float(f) if isinstance(f, (int, float, np.number)) and not isinstance(f, bool) else f
def np_zeros_like(a, **k): return np_full_like(a, 0.0)
def np_ones_like(a, **k): return np_full_like(a, 1.0)


def np_where(c, *xy):
    if not xy:
        if is_sym(c):
            c = np_atleast_1d(c)
        if isinstance(c, OArr) or isinstance(c, np.ndarray):
            return np.where(arrays.conc_mask(c if isinstance(c, OArr) else c.view(OArr)))
        if isinstance(c, SArr) and c.ndim == 1:
            return (MaskIndex(c),)
        raise Unsupported('np.where(mask) on a symbolic-length matrix')
    return elementwise(lambda m, a, b: a if bool(m) else b, c, *xy)


class MaskIndex(SArr):
    """indices selected by a mask: used as an index it acts like the mask itself"""

    def __init__(self, mask):
        super().__init__(mask.data, mask.spaces)


def np_clip(a, a_min=None, a_max=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a
    if a_min is not None:
        r = elementwise(arrays.UF['maximum'], r, a_min)
    if a_max is not None:
        r = elementwise(arrays.UF['minimum'], r, a_max)
    return r


def np_interp(x, xp, fp, left=None, right=None, period=None):
    """exact contract of np.interp for a concrete number of knots (knots sorted)"""
    xp = [arrays.plain(v) for v in (np.asarray(xp, dtype=object).tolist() if not isinstance(xp, list) else xp)]
    fp = [arrays.plain(v) for v in (np.asarray(fp, dtype=object).tolist() if not isinstance(fp, list) else fp)]
    n = len(xp)

    def f(v):
        if special(v) and math.isnan(float(v)):
            return NAN
        lo = fp[0] if left is None else left
        hi = fp[-1] if right is None else right
        if bool(_c('<', v, xp[0])):
            return lo
        if bool(_c('>', v, xp[-1])):
            return hi
        # largest j with xp[j] <= v
        j = 0
        while j + 1 < n and bool(_c('>=', v, xp[j + 1])):
            j += 1
        if j == n - 1:
            return fp[-1]
        if bool(_c('==', v, xp[j])):
            return fp[j]
        if special(xp[j]) or special(xp[j + 1]):
            # numpy: slope = (dy)/(inf) = 0 -> slope*(x-xp[j]) + fp[j], nan fallbacks to the right knot
            dy = fp[j + 1] - fp[j]
            if special(xp[j]):
                # slope 0 * (v - -inf) = nan -> falls back to the right end: 0*(v-xp[j+1]) + fp[j+1]
                r = fp[j + 1]
                return r
            return fp[j]
        slope = (fp[j + 1] - fp[j]) / (xp[j + 1] - xp[j])
        return slope * (v - xp[j]) + fp[j]
    return elementwise(f, x)


def _c(op, a, b):
    if is_sym(a) or is_sym(b):
        return core._cmp(op, a, b)
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b}[op]


def np_cumsum(a, axis=None, **k):
    d, s = as_data(a)
    if any(x is not None for x in s) or d.ndim != 1:
        raise Unsupported('cumsum over a symbolic axis')
    out = np.empty(d.shape, dtype=object)
    acc = 0.0
    for i, v in enumerate(d):
        acc = arrays.UF['add'](acc, v)
        out[i] = acc
    return out.view(OArr)


def np_diff(a, **k):
    d, s = as_data(a)
    if any(x is not None for x in s) or d.ndim != 1:
        raise Unsupported('diff over a symbolic axis')
    return obj_array([arrays.UF['subtract'](d[i + 1], d[i]) for i in range(d.size - 1)])


def np_sort(a, axis=-1, **k):
    d, s = as_data(a)
    if any(x is not None for x in s) or d.ndim != 1:
        raise Unsupported('sort over a symbolic axis')
    v = list(d)
    # insertion sort by forking comparisons
    out = []
    for x in v:
        i = len(out)
        while i > 0 and bool(x < out[i - 1]):
            i -= 1
        out.insert(i, x)
    return obj_array(out)


def np_argsort(a, **k):
    d, s = as_data(a)
    if any(x is not None for x in s) or d.ndim != 1:
        raise Unsupported('argsort over a symbolic axis')
    out = []
    for j, x in enumerate(d):
        i = len(out)
        while i > 0 and bool(x < d[out[i - 1]]):
            i -= 1
        out.insert(i, j)
    return np.array(out, dtype=int)


def np_array_equal(a, b, **k):
    da, sa = as_data(a)
    db, sb = as_data(b)
    if da.shape != db.shape or tuple(sa) != tuple(sb):
        return False
    if any(x is not None for x in sa):
        raise Unsupported('array_equal over a symbolic axis')
    r = core.And(*[x == y for x, y in zip(da.flat, db.flat)])
    return r


def np_isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    def f(x, y):
        if special(x) or special(y):
            return np.bool_(not is_sym(x) and not is_sym(y) and float(x) == float(y))
        d = x - y
        t = atol + rtol * absv(y)
        return core.And(d <= t, -d <= t) if is_sym(d) or is_sym(t) else np.bool_(abs(d) <= t)
    return elementwise(f, a, b)


def absv(y):
    if is_sym(y):
        t = core.to_term(y)
        return SReal(z3.If(t >= 0, t, -t))
    return abs(y)


def np_concatenate(xs, axis=0, **k):
    if any(isinstance(x, SArr) for x in xs):
        raise Unsupported('concatenate of symbolic-length arrays')
    return np.concatenate([as_data(x)[0] for x in xs], axis=axis).view(OArr)


def np_transpose(x, axes=None):
    if isinstance(x, (list, tuple)):
        x = obj_array(x)
    if axes is not None:
        raise Unsupported('transpose with axes')
    return x.T


def np_reshape(a, newshape, **k):
    if isinstance(a, SArr):
        raise Unsupported('reshape of a symbolic-length array')
    return a.reshape(newshape)


def np_repeat(a, repeats, axis=None):
    d, s = as_data(a)
    if isinstance(repeats, SInt) and d.ndim <= 1 and d.size == 1:
        return np_full(repeats, d.flat[0])
    raise Unsupported('np.repeat')


def np_mean(a, axis=None, **k):
    d, s = as_data(a)
    if any(x is not None for x in s):
        raise Unsupported('mean over a symbolic axis')
    r = reduce_('add', a, axis)
    n = d.size if axis is None else d.shape[axis]
    return r / n


def np_nanreduce(name):
    def f(a, axis=None, **k):
        d, s = as_data(a)
        if axis is not None or any(x is not None for x in s):
            raise Unsupported('nan-reduction over a symbolic axis')
        v = [x for x in d.flat if not (special(x) and math.isnan(float(x)))]
        return reduce_(name, obj_array(v), None)
    return f


def np_round(a, decimals=0, **k):
    raise Unsupported('rounding of symbolic values')


def np_isscalar(x): return is_sym(x) or np.isscalar(x)
def np_ndim(x): return x.ndim if hasattr(x, 'ndim') else (0 if is_sym(x) else np.ndim(x))
def np_shape(x): return x.shape if hasattr(x, 'shape') else np.shape(x)
def np_size(x): return x.size if hasattr(x, 'size') else 1


def np_putmask(a, mask, vals):
    a[mask] = vals


def np_count_nonzero(a, axis=None, **k): return reduce_('add', arrays.cast(elementwise(arrays._tob, a), int), axis)


def np_broadcast_to(a, shape, **k):
    ext, sps = _shape_axes(shape)
    d, s = as_data(a)
    return wrap(np.broadcast_to(d, ext).copy(), sps)


def np_arange(*a, **k):
    a = [x for x in a]
    if len(a) == 1 and isinstance(a[0], SInt):
        sp = space_of(a[0])
        i = SInt(z3.Int(f'idx_{sp.name}_{id(sp)}'))
        core.ctx().add(z3.And(i.t >= 0, i.t < sp.len.t))
        d = np.empty(1, dtype=object)
        d[0] = i
        return SArr(d, (sp,))
    raise Unsupported('arange with symbolic bounds')


NP = {
    'array': np_array, 'asarray': np_asarray, 'asanyarray': np_asarray, 'atleast_1d': np_atleast_1d,
    'atleast_2d': np_atleast_2d, 'nan_to_num': np_nan_to_num, 'tile': np_tile, 'full': np_full,
    'zeros': np_zeros, 'ones': np_ones, 'empty': np_zeros, 'full_like': np_full_like, 'zeros_like': np_zeros_like,
    'ones_like': np_ones_like, 'empty_like': np_zeros_like, 'where': np_where, 'clip': np_clip, 'interp': np_interp,
    'cumsum': np_cumsum, 'diff': np_diff, 'sort': np_sort, 'argsort': np_argsort, 'array_equal': np_array_equal,
    'isclose': np_isclose, 'concatenate': np_concatenate, 'hstack': np_concatenate, 'transpose': np_transpose,
    'take': np_take, 'resize': np_resize, 'reshape': np_reshape, 'repeat': np_repeat, 'mean': np_mean, 'average': np_mean,
    'any': lambda a, axis=None, **k: reduce_('logical_or', a, axis),
    'all': lambda a, axis=None, **k: reduce_('logical_and', a, axis),
    'sum': lambda a, axis=None, **k: reduce_('add', obj_array(a) if isinstance(a, (list, tuple)) else a, axis),
    'prod': lambda a, axis=None, **k: reduce_('multiply', obj_array(a) if isinstance(a, (list, tuple)) else a, axis),
    'max': lambda a, axis=None, **k: reduce_('maximum', obj_array(a) if isinstance(a, (list, tuple)) else a, axis),
    'min': lambda a, axis=None, **k: reduce_('minimum', obj_array(a) if isinstance(a, (list, tuple)) else a, axis),
    'amax': lambda a, axis=None, **k: reduce_('maximum', obj_array(a) if isinstance(a, (list, tuple)) else a, axis),
    'amin': lambda a, axis=None, **k: reduce_('minimum', obj_array(a) if isinstance(a, (list, tuple)) else a, axis),
    'nanmax': np_nanreduce('maximum'), 'nanmin': np_nanreduce('minimum'), 'nansum': np_nanreduce('add'),
    'round': np_round, 'around': np_round, 'isscalar': np_isscalar, 'ndim': np_ndim, 'shape': np_shape,
    'size': np_size, 'putmask': np_putmask, 'count_nonzero': np_count_nonzero, 'broadcast_to': np_broadcast_to,
    'arange': np_arange, 'copy': lambda a, **k: a.copy(), 'ravel': lambda a, **k: a.ravel(),
    'isneginf': lambda a: elementwise(lambda v: np.bool_((not is_sym(v)) and v == -INF), a),
    'isposinf': lambda a: elementwise(lambda v: np.bool_((not is_sym(v)) and v == INF), a),
    'nextafter': lambda a, b: (_ for _ in ()).throw(Unsupported('nextafter of a symbolic value')),
    'float64': lambda x: SReal(core.to_term(x)) if is_sym(x) else (x.astype(float)),
    'dot': arrays.matmul, 'matmul': arrays.matmul,
    'outer': lambda a, b: arrays.ufunc_dispatch(np.multiply, 'outer', (a, b), {}),
    'diag': lambda a, **k: np.diag(a),
    'result_type': lambda *a: np.dtype(object), 'issubdtype': lambda a, b: True,
}
# constructors that make float arrays even without symbolic arguments: cells must be able to hold terms
ALWAYS = {'full', 'zeros', 'ones', 'empty'}


class NPFacade:
    """stands for `np` in the globals of the verified modules"""

    def __init__(self, real):
        object.__setattr__(self, '_real', real)

    def __getattr__(self, name):
        real = getattr(self._real, name)
        if isinstance(real, type) and name not in NP:
            return real
        if name in ('random', 'linalg'):
            return real
        if isinstance(real, np.ufunc):
            return UfuncFacade(real)
        if not callable(real):
            return real
        ov = NP.get(name)

        def call(*a, **k):
            if not (name in ALWAYS and core._ctx is not None and _objectify) and not anysym(a, k):
                return real(*a, **k)
            if ov is None:
                raise Unsupported(f'np.{name} has no contract for symbolic operands')
            used.add(f'np.{name}')
            return ov(*a, **k)
        call.__name__ = name
        return call


_objectify = True


class UfuncFacade:
    def __init__(self, real):
        self._real = real
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        if anysym(a, k):
            used.add(f'np.{self._real.__name__}')
            return arrays.ufunc_dispatch(self._real, '__call__', a, k)
        if core._ctx is not None and len(a) == 1 and not k and isinstance(a[0], (pd.DataFrame, pd.Series)):
            x = a[0]
            v = x.to_numpy()
            if v.dtype == object and all(is_sym(e) or isinstance(e, (int, float, np.number)) for e in v.flat):
                # the function acts on each entry of the table
                used.add(f'np.{self._real.__name__}')
                r = np.empty(v.shape, dtype=object)
                for i in np.ndindex(v.shape):
                    r[i] = arrays.UF[self._real.__name__](v[i]) if is_sym(v[i]) else self._real(v[i])
                return x._constructor(r, index=x.index, **({'columns': x.columns} if x.ndim == 2 else {}))
        return self._real(*a, **k)

    def __getattr__(self, name):
        return getattr(self._real, name)


class DistFacade:
    def __init__(self, real, name, table):
        self._real, self._name, self._table = real, name, table

    def __getattr__(self, name):
        real = getattr(self._real, name)
        if not callable(real):
            return real
        ov = self._table.get(name)

        def call(*a, **k):
            if not anysym(a, k):
                return real(*a, **k)
            if ov is None:
                raise Unsupported(f'scipy.stats.{self._name}.{name} has no contract')
            used.add(f'scipy.stats.{self._name}.{name}')
            return ov(*a, **k)
        return call

    def __call__(self, *a, **k):
        """a distribution with its parameters fixed"""
        return Frozen(self, a, k)


class Frozen:
    def __init__(self, dist, a, k):
        self._d, self._a, self._k = dist, a, k

    def __getattr__(self, name):
        f = getattr(self._d, name)
        return lambda x, *a, **k: f(x, *self._a, *a, **self._k, **k)


def _vec(f, names):
    def g(*args, **kw):
        vals = list(args)
        for n in names[len(args):]:
            vals.append(kw.pop(n, {'loc': 0.0, 'scale': 1.0}.get(n)))
        if kw:
            raise Unsupported(f'keyword {kw}')
        return elementwise(f, *vals)
    return g


NORM = {'cdf': _vec(core.norm_cdf, ['x', 'loc', 'scale']), 'ppf': _vec(core.norm_ppf, ['q', 'loc', 'scale']),
        'pdf': _vec(core.norm_pdf, ['x', 'loc', 'scale']),
        'sf': _vec(lambda x, l, s: 1 - core.norm_cdf(x, l, s), ['x', 'loc', 'scale']),
        'isf': _vec(lambda x, l, s: core.norm_ppf(1 - x, l, s), ['q', 'loc', 'scale'])}
UNIFORM = {'cdf': _vec(core.unif_cdf, ['x', 'loc', 'scale']), 'ppf': _vec(core.unif_ppf, ['q', 'loc', 'scale'])}
WEIB = {'cdf': _vec(core.weib_cdf, ['x', 'c', 'loc', 'scale']), 'ppf': _vec(core.weib_ppf, ['q', 'c', 'loc', 'scale'])}


class StatsFacade:
    def __init__(self, real): self._real = real

    def __getattr__(self, name):
        if name in ('norm', 'uniform', 'weibull_min'):
            return FACADES[id(getattr(scipy.stats, name))]
        return getattr(self._real, name)


class PDFacade:
    """stands for `pd`: forwards everything; isna/notna of symbolic scalars"""

    def __init__(self, real): self._real = real

    def __getattr__(self, name):
        real = getattr(self._real, name)
        if name in ('isna', 'isnull', 'notna', 'notnull'):
            neg = name.startswith('not')

            def f(x):
                if is_sym(x):
                    return neg
                if isinstance(x, (SArr, OArr)):
                    used.add('pd.isna')
                    return elementwise(lambda v: np.bool_((not s_isna(v)) if neg else s_isna(v)), x)
                return real(x)
            return f
        if name == 'Series':
            class Meta(type):
                def __instancecheck__(cls, x): return isinstance(x, real)

                def __call__(cls, data=None, *a, **k):
                    # a series over an index set of any size holds the array it is made of
                    return SymSeries(data) if isinstance(data, SArr) and not a and not k else real(data, *a, **k)

                def __getattr__(cls, n): return getattr(real, n)
            return Meta('Series', (), {})
        return real


class SymSeries:
    def __init__(self, values): self.values = values


def s_isna(v):
    return (not is_sym(v)) and (v is None or (isinstance(v, float) and math.isnan(v)))


# ------------------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, SArr):
        return x.shape[0]
    if isinstance(x, SampleSeq):
        return x.n
    if isinstance(x, arrays.FnArr):
        return x.space.len
    return builtins.len(x)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(getattr(k, '_pytype', k) for k in ts)
    if isinstance(x, arrays.FnArr):
        return np.ndarray in ts
    if isinstance(x, SArr):
        return np.ndarray in ts or object in ts
    if isinstance(x, SReal):
        return float in ts or any(k in ts for k in (np.floating, np.float64)) or SReal in ts
    if isinstance(x, SInt):
        return int in ts or np.integer in ts or SInt in ts
    if isinstance(x, SBool):
        return bool in ts or np.bool_ in ts or SBool in ts
    return builtins.isinstance(x, ts if isinstance(t, tuple) else ts[0])


def b_float(x=0.0):
    if is_sym(x):
        return x if isinstance(x, SReal) else SReal(core.to_term(x))
    return builtins.float(x)


def b_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, (SReal, SBool)):
        return arrays.cast(np_atleast_1d(x), int)[0]
    return builtins.int(x, *a)


def b_minmax(name):
    real = getattr(builtins, name)

    def f(*a, **k):
        if k or not anysym(a, {}):
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        out = xs[0]
        for x in xs[1:]:
            # python semantics: keep the first extreme
            if bool(x < out if name == 'min' else x > out):
                out = x
        return out
    return f


class _TypeProxyMeta(type):
    pass


def make_type_proxy(pytype, conv, npdtype):
    """callable replacement for float/int that still works in isinstance() and as a dtype"""
    class Meta(type):
        def __call__(cls, *a, **k): return conv(*a, **k)
        def __instancecheck__(cls, x): return b_isinstance(x, pytype)
        def __eq__(cls, o): return o is cls or o is pytype
        def __hash__(cls): return hash(pytype)
    return Meta(pytype.__name__, (), {'dtype': np.dtype(npdtype), '_pytype': pytype, '__doc__': pytype.__doc__})


FACADES = {
    id(np): NPFacade(np),
    id(scipy.stats.norm): DistFacade(scipy.stats.norm, 'norm', NORM),
    id(scipy.stats.uniform): DistFacade(scipy.stats.uniform, 'uniform', UNIFORM),
    id(scipy.stats.weibull_min): DistFacade(scipy.stats.weibull_min, 'weibull_min', WEIB),
    id(scipy.stats): StatsFacade(scipy.stats),
    id(pd): PDFacade(pd),
}
FLOAT = make_type_proxy(float, b_float, float)
INT = make_type_proxy(int, b_int, int)
BUILTINS = {'float': FLOAT, 'int': INT, 'len': b_len, 'isinstance': b_isinstance, 'min': b_minmax('min'), 'max': b_minmax('max')}


class FloatProxy:
    pass


class install:
    """context manager: rebinds library names in the globals of the given modules"""

    def __init__(self, modules, extra=None, float_int=True):
        self.modules, self.extra, self.saved = modules, extra or {}, []
        self.float_int = float_int

    def __enter__(self):
        for m in self.modules:
            g = m.__dict__
            for k, v in list(g.items()):
                f = FACADES.get(id(v))
                if f is not None and getattr(f, '_real', None) is v:
                    self.saved.append((g, k, v, True))
                    g[k] = f
            bi = dict(BUILTINS)
            for k, v in bi.items():
                if k not in g:
                    self.saved.append((g, k, None, False))
                    g[k] = v
        for m, repl in self.extra.items():
            g = m.__dict__
            for k, v in repl.items():
                self.saved.append((g, k, g.get(k), k in g))
                g[k] = v
        return self

    def __exit__(self, *a):
        for g, k, v, had in reversed(self.saved):
            if had:
                g[k] = v
            else:
                g.pop(k, None)
        _spaces.clear()
        return False
