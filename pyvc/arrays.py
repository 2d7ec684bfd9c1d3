"""Arrays with symbolic cells.

OArr   concrete shape, symbolic cells: an object ndarray subclass whose ufuncs follow the float
       semantics of numpy on symbolic cells.
SArr   one or more axes of unbounded symbolic length (a Space).  `data` holds the value at the
       arbitrary index of each symbolic axis (data has extent 1 there).
"""
from __future__ import annotations
import math
import numpy as np
import z3
from . import core
from .core import (SReal, SBool, SInt, NAN, INF, Unsupported, is_sym, special, ctx)


class Absent:
    """cell of a compressed array at an index that the mask did not select"""
    _inst = None

    def __new__(cls):
        if cls._inst is None:
            cls._inst = super().__new__(cls)
        return cls._inst

    def __repr__(self): return 'ABSENT'
    def __deepcopy__(self, m): return self
    def __copy__(self): return self


ABSENT = Absent()


class Space:
    """an index set {0..n-1} of arbitrary size n >= 1 (or >= 0)"""
    _n = 0

    def __init__(self, name=None, nonempty=True, parent=None):
        Space._n += 1
        self.name = name or f'sp{Space._n}'
        self.parent = parent
        self.len = SInt(z3.Int(core.ctx().fresh(f'len_{self.name}')))
        core.ctx().add_universal(self.len.t >= (1 if nonempty else 0))

    def __repr__(self): return f'<{self.name}>'


# ---------------------------------------------------------------------------------------
# scalar semantics of ufuncs
# ---------------------------------------------------------------------------------------
def s_isnan(x):
    if is_sym(x):
        return np.bool_(False)
    if x is None:
        raise TypeError('isnan of None')
    return np.bool_(isinstance(x, (float, np.floating)) and math.isnan(float(x)))


def s_isinf(x):
    return np.bool_(False) if is_sym(x) else np.bool_(isinstance(x, (float, np.floating)) and math.isinf(float(x)))


def _nanprop(f):
    def g(a, b):
        if special(a) and math.isnan(float(a)):
            return a
        if special(b) and math.isnan(float(b)):
            return b
        return f(a, b)
    return g


def s_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    c = a >= b
    return a if bool(c) else b


def s_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    c = a <= b
    return a if bool(c) else b


def s_div(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all='ignore'):
            return float(np.float64(a) / np.float64(b))
    return core._arith('/', a, b)


def s_and(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return np.bool_(bool(a) and bool(b))
    return core.And(a, b)


def s_or(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return np.bool_(bool(a) or bool(b))
    return core.Or(a, b)


def s_inv(a):
    if isinstance(a, SBool):
        return ~a
    if isinstance(a, (bool, np.bool_)):
        return np.bool_(not a)
    if isinstance(a, (int, np.integer)):
        return ~a
    raise Unsupported('invert of a non-boolean')


def s_num(f):
    """arithmetic on two cells with concrete fallback"""
    def g(a, b):
        if not is_sym(a) and not is_sym(b):
            with np.errstate(all='ignore'):
                r = f(np.float64(a) if isinstance(a, float) else a, np.float64(b) if isinstance(b, float) else b)
            return float(r) if isinstance(r, np.floating) else r
        return f(a, b)
    return g


def s_sign(a):
    if not is_sym(a):
        return float(np.sign(a))
    return float(core.sign_fork(a))


def s_floor(a):
    if not is_sym(a):
        return float(np.floor(a))
    return SReal(z3.ToReal(z3.ToInt(core.to_term(a))))


def s_ceil(a):
    if not is_sym(a):
        return float(np.ceil(a))
    t = core.to_term(a)
    return SReal(-z3.ToReal(z3.ToInt(-t)))


def conc(f):
    def g(a):
        if not is_sym(a):
            with np.errstate(all='ignore'):
                return f(a)
        raise Unsupported('unary function of a symbolic cell')
    return g


UF = {
    'add': s_num(lambda a, b: a + b), 'subtract': s_num(lambda a, b: a - b),
    'multiply': s_num(lambda a, b: a * b), 'divide': s_div, 'true_divide': s_div,
    'floor_divide': lambda a, b: a // b, 'remainder': lambda a, b: a % b, 'mod': lambda a, b: a % b,
    'power': lambda a, b: core.sym_pow(a, b) if (is_sym(a) or is_sym(b)) else float(np.power(a, b)),
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
    'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'maximum': _nanprop(s_max), 'minimum': _nanprop(s_min),
    'fmax': lambda a, b: b if (special(a) and math.isnan(float(a))) else (a if (special(b) and math.isnan(float(b))) else s_max(a, b)),
    'fmin': lambda a, b: b if (special(a) and math.isnan(float(a))) else (a if (special(b) and math.isnan(float(b))) else s_min(a, b)),
    'logical_and': s_and, 'logical_or': s_or, 'bitwise_and': s_and, 'bitwise_or': s_or,
    'logical_not': s_inv, 'invert': s_inv,
    'negative': lambda a: -a, 'positive': lambda a: a, 'absolute': lambda a: abs(a), 'fabs': lambda a: abs(a),
    'exp': core.sym_exp, 'log': core.sym_log, 'sqrt': core.sym_sqrt,
    'square': lambda a: a * a, 'reciprocal': lambda a: s_div(1.0, a),
    'isnan': s_isnan, 'isinf': s_isinf,
    'isfinite': lambda a: np.bool_(True) if is_sym(a) else np.isfinite(a),
    'sign': s_sign, 'floor': s_floor, 'ceil': s_ceil,
    'conjugate': lambda a: a,
    'log10': lambda a: core.sym_log(a) / math.log(10.0), 'log1p': lambda a: core.sym_log(1 + a),
    'expm1': lambda a: core.sym_exp(a) - 1,
}

BOOLUF = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
          'logical_not', 'isnan', 'isinf', 'isfinite'}


def plain(x):
    """cell value from array/scalar input"""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    if isinstance(x, np.generic):
        return x.item() if not isinstance(x, np.bool_) else x
    return x


def has_sym(x, depth=0):
    if isinstance(x, (SReal, SBool, SInt, SArr, OArr, Space, FnArr)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(has_sym(v, depth + 1) for v in x.flat)
    if depth < 4 and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(v, depth + 1) for v in x)
    if depth < 4 and isinstance(x, dict):
        return any(has_sym(v, depth + 1) for v in x.values())
    return False


def as_data(x):
    """(object ndarray, spaces) of an operand"""
    if isinstance(x, SArr):
        return x.data, x.spaces
    if isinstance(x, np.ndarray):
        d = np.empty(x.shape, dtype=object)
        for idx in np.ndindex(x.shape):
            d[idx] = plain(x[idx]) if x.dtype != object else np.ndarray.__getitem__(x, idx)
        return d, (None,) * x.ndim
    if isinstance(x, (list, tuple)):
        return as_data(obj_array(x))
    d = np.empty((), dtype=object)
    d[()] = plain(x)
    return d, ()


def obj_array(x):
    """np.array() of nested sequences that contain symbolic values"""
    if isinstance(x, (SArr, OArr)):
        return x.copy()
    if isinstance(x, np.ndarray):
        return wrap(as_data(x)[0])
    if isinstance(x, (list, tuple)):
        parts = [obj_array(v) if isinstance(v, (list, tuple, np.ndarray, SArr)) else v for v in x]
        if any(isinstance(p, SArr) for p in parts):
            return stack(parts)
        if parts and all(isinstance(p, np.ndarray) for p in parts):
            shp = parts[0].shape
            d = np.empty((len(parts), *shp), dtype=object)
            for i, p in enumerate(parts):
                if p.shape != shp:
                    raise ValueError('inhomogeneous shape')
                d[i] = p
            return wrap(d)
        d = np.empty(len(parts), dtype=object)
        for i, p in enumerate(parts):
            d[i] = plain(p)
        return wrap(d)
    d = np.empty((), dtype=object)
    d[()] = x
    return wrap(d)


def stack(parts):
    spaces = None
    datas = []
    for p in parts:
        if not isinstance(p, SArr):
            raise Unsupported('stacking symbolic-length and concrete arrays')
        if spaces is None:
            spaces = p.spaces
        elif tuple(spaces) != tuple(p.spaces):
            raise Unsupported('stacking arrays over different index sets')
        datas.append(p.data)
    d = np.empty((len(datas), *datas[0].shape), dtype=object)
    for i, x in enumerate(datas):
        d[i] = x
    return SArr(d, (None, *spaces))


def wrap(d, spaces=None):
    if spaces is None or all(s is None for s in spaces):
        return d.view(OArr) if isinstance(d, np.ndarray) and d.ndim > 0 else (d.item() if isinstance(d, np.ndarray) else d)
    return SArr(d, spaces)


def broadcast(operands):
    ds, sps = [], []
    for o in operands:
        d, s = as_data(o)
        ds.append(d)
        sps.append(s)
    nd = max(d.ndim for d in ds)
    out_spaces = [None] * nd
    for d, s in zip(ds, sps):
        off = nd - d.ndim
        for i, sp in enumerate(s):
            if sp is None:
                continue
            if out_spaces[off + i] is None:
                out_spaces[off + i] = sp
            elif out_spaces[off + i] is not sp:
                raise Unsupported('operands over different symbolic index sets')
    # a symbolic axis may only meet extent 1 (concrete broadcasting) or the same space
    for d, s in zip(ds, sps):
        off = nd - d.ndim
        for i in range(d.ndim):
            if s[i] is None and out_spaces[off + i] is not None and d.shape[i] != 1:
                raise Unsupported('concrete extent meets a symbolic axis')
    shape = np.broadcast_shapes(*[d.shape for d in ds])
    return [np.broadcast_to(d, shape) for d in ds], shape, tuple(out_spaces)


def elementwise(f, *operands):
    ds, shape, spaces = broadcast(operands)
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(shape):
        args = [d[idx] for d in ds]
        out[idx] = ABSENT if any(a is ABSENT for a in args) else f(*args)
    if shape == ():
        return out[()]
    return wrap(out, spaces)


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    where = kwargs.pop('where', True)
    kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    if method == 'reduce' and name in ('add', 'multiply', 'maximum', 'minimum', 'logical_or', 'logical_and'):
        axis = kwargs.get('axis', 0)
        return reduce_(name, inputs[0], axis, keepdims=kwargs.get('keepdims', False))
    if method == 'outer' and name in UF:
        a, sa = as_data(inputs[0])
        b, sb = as_data(inputs[1])
        a = a.reshape(a.shape + (1,) * b.ndim)
        A = wrap(a, (*sa, *([None] * b.ndim)))
        return elementwise(UF[name], A, inputs[1])
    if method != '__call__':
        raise Unsupported(f'ufunc {name}.{method} on symbolic arrays')
    if name == 'matmul':
        return matmul(*inputs)
    if name not in UF:
        raise Unsupported(f'ufunc {name} on symbolic values')
    if where is not True:
        raise Unsupported('ufunc where=')
    res = elementwise(UF[name], *inputs)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, (SArr, OArr)):
            d, s = as_data(res)
            od = o.data if isinstance(o, SArr) else np.asarray(o, dtype=object)
            if isinstance(o, SArr) and tuple(s) != tuple(o.spaces):
                raise Unsupported('in-place result over other index sets')
            if od.shape != d.shape:
                d = np.broadcast_to(d, od.shape)
            for idx in np.ndindex(od.shape):
                od[idx] = d[idx]
            return o
        if isinstance(o, np.ndarray) and o.dtype == object:
            d, s = as_data(res)
            if s and any(x is not None for x in s):
                raise Unsupported('in-place result over other index sets')
            d = np.broadcast_to(d, o.shape)
            for idx in np.ndindex(o.shape):
                o[idx] = d[idx]
            return o
        raise Unsupported('in-place symbolic result in a float array')
    return res


def matmul(a, b):
    if isinstance(a, SArr) and isinstance(b, SArr):
        raise Unsupported('matmul of symbolic-length arrays')
    da, sa = as_data(a)
    db, sb = as_data(b)
    if sa and sa[-1] is not None:
        raise Unsupported('matmul contraction over a symbolic axis')
    if len(sb) >= 1 and sb[0 if len(sb) == 1 else -2] is not None:
        raise Unsupported('matmul contraction over a symbolic axis')
    if da.ndim > 2 or db.ndim > 2:
        raise Unsupported('matmul with more than 2 dimensions')
    A = da if da.ndim == 2 else da.reshape(1, -1)
    B = db if db.ndim == 2 else db.reshape(-1, 1)
    if A.shape[1] != B.shape[0]:
        raise ValueError('matmul: shape mismatch')
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            acc = 0.0
            for k in range(A.shape[1]):
                acc = UF['add'](acc, UF['multiply'](A[i, k], B[k, j]))
            out[i, j] = acc
    sp = []
    if da.ndim == 2:
        sp.append(sa[0])
    else:
        out = out[0]
    if db.ndim == 2:
        sp.append(sb[1])
    else:
        out = out[..., 0]
    return wrap(out, tuple(sp)) if sp else out.item()


def fork_any(cells):
    """`any` over a symbolic axis: true at the arbitrary index, or elsewhere, or nowhere"""
    c = ctx()
    # nothing but declared bounds, which every entry satisfies, is known so far: the bounds decide for all entries
    nowhere = bool(c.universal)
    facts = list(c.pc)
    for v in cells:
        if v is ABSENT:
            nowhere = False
            continue
        if isinstance(v, SBool):
            if bool(v):
                return True
        elif bool(v):
            return True
    if all(isinstance(v, (bool, np.bool_)) for v in cells) and getattr(cells, 'uniform', False):
        return False
    if nowhere:
        s = z3.Solver()
        s.set('timeout', 200)
        s.add(*c.universal)
        s.push()
        # the path so far follows from the bounds alone, so the cells mean the same at every index
        s.add(z3.Not(z3.And(*facts)))
        same = s.check() == z3.unsat
        s.pop()
        s.add(z3.Or(*[v.t if isinstance(v, SBool) else z3.BoolVal(True) for v in cells]))
        if same and s.check() == z3.unsat:
            return False
    if c.choose(2) == 1:
        c.elsewhere = True
        return True
    return False


def is_uniform(cells):
    return False


def reduce_(name, x, axis=None, keepdims=False):
    d, s = as_data(x)
    nd = d.ndim
    if nd == 0:
        return d.item()
    if axis is None:
        axes = tuple(range(nd))
    elif isinstance(axis, tuple):
        axes = tuple(a % nd for a in axis)
    else:
        axes = (axis % nd,)
    symaxes = [a for a in axes if s[a] is not None]
    if symaxes and name not in ('logical_or', 'logical_and'):
        if name in ('maximum', 'minimum') and isinstance(x, SArr):
            return reduce_extreme(name, x, axes)
        raise Unsupported(f'{name}.reduce over a symbolic axis')
    keep = [a for a in range(nd) if a not in axes]
    shape = [d.shape[a] for a in keep]
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        sel = [slice(None)] * nd
        for a, i in zip(keep, idx):
            sel[a] = i
        cells = list(np.asarray(d[tuple(sel)], dtype=object).flat)
        if name in ('logical_or', 'logical_and'):
            if symaxes:
                if name == 'logical_or':
                    r = np.bool_(fork_any(Cells(cells, x)))
                else:
                    r = np.bool_(not fork_any(Cells([s_inv(_tob(v)) if v is not ABSENT else ABSENT for v in cells], x)))
            else:
                r = None
                for v in cells:
                    v = _tob(v)
                    r = v if r is None else (s_or(r, v) if name == 'logical_or' else s_and(r, v))
                if r is None:
                    r = np.bool_(name == 'logical_and')
        else:
            r = None
            for v in cells:
                r = v if r is None else UF[name](r, v)
            if r is None:
                if name == 'add':
                    r = 0.0
                elif name == 'multiply':
                    r = 1.0
                else:
                    raise ValueError('zero-size array to reduction operation')
        out[idx] = r
    if keepdims:
        shp = [1 if a in axes else d.shape[a] for a in range(nd)]
        return wrap(out.reshape(shp), tuple(None if a in axes else s[a] for a in range(nd)))
    if not shape:
        return out[()]
    return wrap(out, tuple(s[a] for a in keep))


class Cells(list):
    def __init__(self, it, src=None):
        super().__init__(it)
        # a column of identical concrete cells built by a constructor is uniform over its axis
        self.uniform = bool(getattr(src, 'uniform', False))


def _tob(v):
    if isinstance(v, (SBool, bool, np.bool_)):
        return v
    if special(v):
        return np.bool_(True)
    return v != 0


def reduce_extreme(name, x, axes):
    """max/min over the symbolic axis: an upper (lower) bound of the arbitrary entry"""
    d, s = as_data(x)
    if d.size != 1:
        raise Unsupported('max/min over a symbolic axis of a matrix')
    v = d.flat[0]
    if special(v):
        raise Unsupported('max/min of special values over a symbolic axis')
    c = ctx()
    m = SReal(z3.Real(c.fresh(name)))
    c.add((m.t >= core.to_term(v)) if name == 'maximum' else (m.t <= core.to_term(v)))
    return m


class OArr(np.ndarray):
    """concrete-shape object array with symbolic cells"""

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def copy(self, *a, **k):
        return np.array(np.asarray(self), dtype=object).view(OArr)

    def any(self, axis=None, **k): return reduce_('logical_or', self, axis)
    def all(self, axis=None, **k): return reduce_('logical_and', self, axis)
    def sum(self, axis=None, **k): return reduce_('add', self, axis)
    def prod(self, axis=None, **k): return reduce_('multiply', self, axis)
    def max(self, axis=None, **k): return reduce_('maximum', self, axis)
    def min(self, axis=None, **k): return reduce_('minimum', self, axis)

    def __getitem__(self, key):
        if isinstance(key, SInt):
            return pick(np.asarray(self), key)
        if isinstance(key, SArr) and self.ndim == 1 and all(isinstance(v, (SInt, int)) for v in key.data.flat):
            return elementwise(lambda i: pick(np.asarray(self), i), key)
        key = conc_mask(key)
        r = super().__getitem__(key)
        return r

    def __setitem__(self, key, val):
        super().__setitem__(conc_mask(key), val)

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return np.asarray(self).tolist()


def pick(vec, i):
    """entry of a concrete vector at a symbolic index"""
    n = len(vec)
    if not isinstance(i, SInt):
        return vec[i]
    for k in range(-n, n):
        if ctx().branch(i.t == k):
            return vec[k]
    raise IndexError('index out of bounds')


def conc_mask(key):
    if isinstance(key, OArr) and key.size and all(isinstance(v, (bool, np.bool_, SBool)) for v in np.asarray(key).flat):
        k = np.empty(key.shape, dtype=bool)
        base = np.asarray(key)
        for idx in np.ndindex(key.shape):
            k[idx] = bool(base[idx])
        return k
    if isinstance(key, OArr) and key.dtype == object:
        base = np.asarray(key)
        if all(isinstance(v, (int, np.integer)) for v in base.flat):
            return base.astype(int)
    if isinstance(key, tuple):
        return tuple(conc_mask(k) for k in key)
    return key


def cast(x, dtype):
    if not isinstance(dtype, type) and callable(dtype):          # np.float64 as seen by the verified modules
        dtype = getattr(np, getattr(dtype, '__name__', ''), dtype)
    if dtype in (float, np.float64, 'float', 'float64', np.dtype(float)):
        f = lambda v: v if (is_sym(v) and not isinstance(v, (SInt, SBool))) else (SReal(core.to_term(v)) if is_sym(v) else (float(v)))
    elif dtype in (int, np.int64, 'int', 'int64', 'int32', np.dtype(int)):
        def f(v):
            if isinstance(v, SInt):
                return v
            if isinstance(v, SBool):
                return SInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
            if isinstance(v, SReal):
                # truncation toward zero
                t = v.t
                return SInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
            return int(v)
    elif dtype in (bool, np.bool_, 'bool'):
        f = _tob
    elif dtype in (object, 'object', 'O', 'O8', np.dtype(object)):
        f = lambda v: v
    else:
        raise Unsupported(f'astype({dtype}) of a symbolic array')
    return elementwise(f, x)


class SArr:
    """array with at least one axis of symbolic length"""
    __array_priority__ = 2000.0

    def __init__(self, data, spaces):
        self.data = data
        self.spaces = tuple(spaces)
        assert data.ndim == len(self.spaces)

    # -- structure
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array__(self, *a, **k):
        raise Unsupported('a symbolic-length array reached C code')

    @property
    def ndim(self): return self.data.ndim

    @property
    def shape(self):
        return tuple(sp.len if sp is not None else n for sp, n in zip(self.spaces, self.data.shape))

    @property
    def size(self):
        n = 1
        for v in self.shape:
            n = n * v
        return n

    @property
    def dtype(self): return np.dtype(object)

    @property
    def T(self): return SArr(self.data.T, self.spaces[::-1])

    def __len__(self):
        raise Unsupported('len() of a symbolic-length array (len is modelled only in pelicun modules)')

    def __iter__(self):
        if self.spaces[0] is not None:
            raise Unsupported('iteration over a symbolic axis without a loop contract')
        for i in range(self.data.shape[0]):
            yield self[i]

    def __repr__(self): return f'SArr({self.data.tolist()}, {self.spaces})'

    def cell(self):
        return self.data.flat[0]

    def copy(self, *a, **k):
        return SArr(self.data.copy(), self.spaces)

    def __deepcopy__(self, memo): return self.copy()

    def astype(self, dtype, *a, **k): return cast(self, dtype)

    def to_numpy(self): return self

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported('flatten of a symbolic matrix')

    ravel = flatten

    def any(self, axis=None, **k): return reduce_('logical_or', self, axis)
    def all(self, axis=None, **k): return reduce_('logical_and', self, axis)
    def sum(self, axis=None, **k): return reduce_('add', self, axis)
    def max(self, axis=None, **k): return reduce_('maximum', self, axis)
    def min(self, axis=None, **k): return reduce_('minimum', self, axis)

    # -- operators
    def _op(self, name, o, swap=False):
        return elementwise(UF[name], o, self) if swap else elementwise(UF[name], self, o)

    def __add__(self, o): return self._op('add', o)
    def __radd__(self, o): return self._op('add', o, True)
    def __sub__(self, o): return self._op('subtract', o)
    def __rsub__(self, o): return self._op('subtract', o, True)
    def __mul__(self, o): return self._op('multiply', o)
    def __rmul__(self, o): return self._op('multiply', o, True)
    def __truediv__(self, o): return self._op('divide', o)
    def __rtruediv__(self, o): return self._op('divide', o, True)
    def __floordiv__(self, o): return self._op('floor_divide', o)
    def __mod__(self, o): return self._op('mod', o)
    def __pow__(self, o): return self._op('power', o)
    def __lt__(self, o): return self._op('less', o)
    def __le__(self, o): return self._op('less_equal', o)
    def __gt__(self, o): return self._op('greater', o)
    def __ge__(self, o): return self._op('greater_equal', o)
    def __eq__(self, o): return self._op('equal', o)
    def __ne__(self, o): return self._op('not_equal', o)
    def __and__(self, o): return self._op('logical_and', o)
    def __rand__(self, o): return self._op('logical_and', o, True)
    def __or__(self, o): return self._op('logical_or', o)
    def __ror__(self, o): return self._op('logical_or', o, True)
    def __invert__(self): return elementwise(UF['invert'], self)
    def __neg__(self): return elementwise(UF['negative'], self)
    def __abs__(self): return elementwise(UF['absolute'], self)
    __hash__ = None

    def _inplace(self, name, o):
        r = self._op(name, o)
        if tuple(r.spaces) != self.spaces or r.data.shape != self.data.shape:
            raise Unsupported('in-place operation changes the shape')
        for idx in np.ndindex(self.data.shape):
            self.data[idx] = r.data[idx]
        return self

    def __iadd__(self, o): return self._inplace('add', o)
    def __isub__(self, o): return self._inplace('subtract', o)
    def __imul__(self, o): return self._inplace('multiply', o)
    def __itruediv__(self, o): return self._inplace('divide', o)

    def __bool__(self):
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    # -- indexing
    def _is_mask(self, k):
        return isinstance(k, SArr) and all(isinstance(v, (SBool, bool, np.bool_, Absent)) for v in k.data.flat)

    def __getitem__(self, key):
        if self._is_mask(key):
            if key.spaces != self.spaces:
                raise Unsupported('mask over another index set')
            out = np.empty(self.data.shape, dtype=object)
            for idx in np.ndindex(self.data.shape):
                m = key.data[idx]
                out[idx] = self.data[idx] if (m is not ABSENT and bool(m)) else ABSENT
            if self.ndim != 1:
                raise Unsupported('mask selection from a matrix')
            # the compressed array keeps the index correspondence with its parent
            return SArr(out, self.spaces)
        if not isinstance(key, tuple):
            key = (key,)
        if sum(k is Ellipsis for k in key) == 1:
            i = [k is Ellipsis for k in key].index(True)
            fill = self.ndim - sum(k is not None for k in key) + 1
            key = key[:i] + (slice(None),) * fill + key[i + 1:]
        nk, sp, ai = [], [], 0
        for k in key:
            if k is None:
                nk.append(None)
                sp.append(None)
                continue
            s = self.spaces[ai]
            if s is not None:
                if isinstance(k, slice) and k == slice(None):
                    nk.append(slice(None))
                    sp.append(s)
                else:
                    raise Unsupported('indexing along a symbolic axis')
            elif isinstance(k, (int, np.integer)):
                nk.append(k)
            elif isinstance(k, slice):
                nk.append(k)
                sp.append(None)
            else:
                nk.append(np.asarray(k))
                sp.append(None)
            ai += 1
        while ai < self.ndim:
            nk.append(slice(None))
            sp.append(self.spaces[ai])
            ai += 1
        d = self.data[tuple(nk)]
        if not isinstance(d, np.ndarray):
            return d
        return wrap(d, tuple(sp)) if any(x is not None for x in sp) else d.view(OArr)

    def __setitem__(self, key, val):
        if self._is_mask(key):
            if key.spaces != self.spaces or self.ndim != 1:
                raise Unsupported('mask over another index set')
            for idx in np.ndindex(self.data.shape):
                m = key.data[idx]
                if m is not ABSENT and bool(m):
                    if isinstance(val, SArr):
                        v = val.data[idx]
                        if v is ABSENT:
                            raise Unsupported('mask mismatch in assignment')
                    else:
                        dv, _ = as_data(val)
                        if dv.size != 1:
                            raise Unsupported('assigning a concrete vector through a symbolic mask')
                        v = dv.flat[0]
                    self.data[idx] = v
            return
        if isinstance(key, slice) and key == slice(None):
            key = (slice(None),) * self.ndim
        if not isinstance(key, tuple):
            key = (key,)
        tgt = self[key]
        if isinstance(tgt, SArr):
            d, s = as_data(val)
            d = np.broadcast_to(d, tgt.data.shape)
            for idx in np.ndindex(tgt.data.shape):
                tgt.data[idx] = d[idx]
        else:
            raise Unsupported('assignment into a symbolic array')


class FnArr:
    """data vector of arbitrary length: the entry at i is an uninterpreted function of i"""
    ndim = 1

    def __init__(self, name, space):
        self.space = space
        self.f = z3.Function(core.ctx().fresh(name), z3.IntSort(), z3.RealSort())

    @property
    def shape(self): return (self.space.len,)

    @property
    def size(self): return self.space.len

    def __len__(self): raise Unsupported('len() of a symbolic-length array')

    def at(self, i):
        return SReal(self.f(i.t if isinstance(i, SInt) else z3.IntVal(int(i))))

    def _pick(self, i):
        n = self.space.len.t
        t = i.t if isinstance(i, SInt) else z3.IntVal(int(i))
        c = ctx()
        if c.branch(z3.And(t >= 0, t < n)):
            return SReal(self.f(t))
        if c.branch(z3.And(t < 0, t >= -n)):
            return SReal(self.f(t + n))
        raise IndexError('index out of bounds')

    def __getitem__(self, key):
        if isinstance(key, (int, np.integer, SInt)):
            return self._pick(key)
        if isinstance(key, (SArr, OArr)):
            return elementwise(self._pick, key)
        raise Unsupported('indexing of a data vector')

    def __deepcopy__(self, m): return self
    def copy(self): return self

    def __iter__(self): raise Unsupported('iteration over a data vector of unknown length')
