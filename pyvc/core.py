"""Symbolic values, path enumeration and proof obligations.

The function under contract is executed natively by CPython with the symbolic values defined
here.  A branch on a symbolic condition forks the path; all feasible paths are enumerated by
re-execution.  NaN and infinities never live inside a term: a value is either a *finite real*
term (SReal) or a concrete Python float nan/inf/-inf (the case split is done by forking).
"""
from __future__ import annotations
import math
from fractions import Fraction
import numpy as np
import z3

NAN = float('nan')
INF = float('inf')


class Unsupported(Exception):
    """The engine cannot give a meaning to this operation on symbolic values."""


class PathDone(BaseException):
    """Ends the current path (assumption infeasible or enough paths explored)."""


class Discard(BaseException):
    """Concrete mode: the drawn input does not satisfy the precondition."""


_ctx = None


def ctx():
    if _ctx is None:
        raise Unsupported('symbolic operation outside of a verification context')
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


# ---------------------------------------------------------------------------------------
# path context
# ---------------------------------------------------------------------------------------
class Ctx:
    def __init__(self, prefix, feas_timeout=3000, stats=None):
        self.prefix = list(prefix)      # forced decisions
        self.trace = []                 # decisions taken on this path
        self.alts = []                  # alternative prefixes discovered
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_timeout)
        self.pc = []
        self.universal = []
        self.counter = 0
        self.ufs = {}                   # (fname, key) -> (const, arg)
        self.inputs = {}                # name -> value as handed to the code
        self.cases = {}
        self.elsewhere = False          # an `any` was true at another index
        self.unknown_branches = 0
        self.stats = stats if stats is not None else {}

    # -- naming
    def fresh(self, base):
        self.counter += 1
        return f'{base}!{self.counter}'

    # -- constraints
    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)

    def add_universal(self, t):
        """a declared bound: true of every entry of an array, not only of the arbitrary one"""
        self.add(t)
        self.universal.append(t)

    def assume(self, t):
        """Assume a precondition; an infeasible one ends the path."""
        t = to_bool_term(t)
        if t is True:
            return
        if t is False:
            raise PathDone('infeasible assumption')
        self.add(t)
        if self.solver.check() == z3.unsat:
            raise PathDone('infeasible assumption')

    def sat(self, t):
        self.stats['feas'] = self.stats.get('feas', 0) + 1
        self.solver.push()
        self.solver.add(t)
        r = self.solver.check()
        self.solver.pop()
        return r

    # -- decisions
    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.trace.append(d)
            self.add(t if d else z3.Not(t))
            return bool(d)
        rt = self.sat(t)
        rf = self.sat(z3.Not(t))
        if rt == z3.unsat and rf == z3.unsat:
            raise PathDone('infeasible path')
        if rt == z3.unknown or rf == z3.unknown:
            self.unknown_branches += 1
        if rt == z3.unsat:
            d = 0
        elif rf == z3.unsat:
            d = 1
        else:
            d = 1
            self.alts.append(self.trace + [0])
        self.trace.append(d)
        self.add(t if d else z3.Not(t))
        return bool(d)

    def choose(self, k):
        """Nondeterministic choice among k alternatives (case analysis)."""
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            d = 0
            for j in range(k - 1, 0, -1):
                self.alts.append(self.trace + [j])
        self.trace.append(d)
        return d


# ---------------------------------------------------------------------------------------
# terms
# ---------------------------------------------------------------------------------------
def is_sym(x):
    return isinstance(x, (SReal, SBool, SInt))


_NUM = (int, float, np.integer, np.floating)


def rv(x):
    """Exact rational z3 constant of a finite python number."""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    f = Fraction(float(x))
    return z3.RealVal(f'{f.numerator}/{f.denominator}') if f.denominator != 1 else z3.RealVal(f.numerator)


def special(x):
    """True for a concrete nan / +-inf."""
    return isinstance(x, (float, np.floating)) and not math.isfinite(float(x))


def to_term(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SInt):
        return z3.ToReal(x.t)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, np.bool_, *_NUM)):
        return rv(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f'{x.numerator}/{x.denominator}')
    raise Unsupported(f'no real term for {type(x).__name__}')


def to_bool_term(x):
    if isinstance(x, SBool):
        s = z3.simplify(x.t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported(f'no boolean term for {type(x).__name__}')


def _coerce(x):
    """Return x as symbolic/concrete number operand, or NotImplemented."""
    if isinstance(x, (SReal, SInt, SBool, bool, np.bool_, *_NUM, Fraction)):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    return NotImplemented


def sign_fork(x):
    """concrete sign of a symbolic real on this path"""
    t = to_term(x)
    if ctx().branch(t > 0):
        return 1
    if ctx().branch(t < 0):
        return -1
    return 0


def _arith(op, a, b):
    """a op b with a, b numbers (symbolic or concrete, possibly special)."""
    if special(a) or special(b):
        fa = float(a) if not is_sym(a) else None
        fb = float(b) if not is_sym(b) else None
        if (fa is not None and math.isnan(fa)) or (fb is not None and math.isnan(fb)):
            return NAN
        if op == '+':
            if fa is None:
                return fb
            if fb is None:
                return fa
            return fa + fb
        if op == '-':
            if fa is None:
                return -fb
            if fb is None:
                return fa
            return fa - fb
        if op == '*':
            if fa is None:
                s = sign_fork(a)
                return NAN if s == 0 else (fb if s > 0 else -fb)
            if fb is None:
                s = sign_fork(b)
                return NAN if s == 0 else (fa if s > 0 else -fa)
            return fa * fb
        if op == '/':
            if fb is not None and math.isinf(fb):
                return 0.0 if fa is None or not math.isinf(fa) else NAN
            if fb is None:
                s = sign_fork(b)
                return fa if s >= 0 else -fa
            return float(np.float64(fa) / np.float64(fb))
        raise Unsupported(f'special value in {op}')
    if isinstance(a, (SInt, int, np.integer, bool)) and isinstance(b, (SInt, int, np.integer, bool)) and op != '/':
        ta = a.t if isinstance(a, SInt) else z3.IntVal(int(a))
        tb = b.t if isinstance(b, SInt) else z3.IntVal(int(b))
        return SInt({'+': lambda: ta + tb, '-': lambda: ta - tb, '*': lambda: ta * tb}[op]())
    ta, tb = to_term(a), to_term(b)
    if op == '+':
        return SReal(ta + tb)
    if op == '-':
        return SReal(ta - tb)
    if op == '*':
        return SReal(ta * tb)
    if op == '/':
        if is_sym(b):
            if ctx().branch(tb == 0):
                if is_sym(a):
                    s = sign_fork(a)
                else:
                    s = (float(a) > 0) - (float(a) < 0)
                return NAN if s == 0 else (INF if s > 0 else -INF)
        elif float(b) == 0.0:
            s = sign_fork(a)
            return NAN if s == 0 else (INF if s > 0 else -INF)
        return SReal(_div(ta, tb))
    raise Unsupported(op)


def _div(n, d):
    """n / d for d != 0 on this path, cancelling a common factor"""
    n, d = z3.simplify(n), z3.simplify(d)
    if n.eq(d):
        return z3.RealVal(1)
    if z3.is_mul(n):
        ch = n.children()
        for i, c in enumerate(ch):
            if c.eq(d):
                rest = ch[:i] + ch[i + 1:]
                out = rest[0]
                for r in rest[1:]:
                    out = out * r
                return out
    return n / d


def _cmp(op, a, b):
    if special(a) or special(b):
        fa = float(a) if special(a) else 0.0
        fb = float(b) if special(b) else 0.0
        if math.isnan(fa) or math.isnan(fb):
            return np.bool_(op == '!=')
        # at least one is infinite; a finite operand behaves like 0
        return np.bool_({'<': fa < fb, '<=': fa <= fb, '>': fa > fb, '>=': fa >= fb,
                         '==': fa == fb, '!=': fa != fb}[op])
    if isinstance(a, (SInt, int, np.integer)) and isinstance(b, (SInt, int, np.integer)):
        ta = a.t if isinstance(a, SInt) else z3.IntVal(int(a))
        tb = b.t if isinstance(b, SInt) else z3.IntVal(int(b))
    else:
        ta, tb = to_term(a), to_term(b)
    return SBool({'<': lambda: ta < tb, '<=': lambda: ta <= tb, '>': lambda: ta > tb,
                  '>=': lambda: ta >= tb, '==': lambda: ta == tb, '!=': lambda: ta != tb}[op]())


class _Num:
    __slots__ = ()
    __array_priority__ = 1000.0

    def _bin(self, op, other, swap=False):
        o = _coerce(other)
        if o is NotImplemented:
            return NotImplemented
        return _arith(op, o, self) if swap else _arith(op, self, o)

    def __add__(self, o): return self._bin('+', o)
    def __radd__(self, o): return self._bin('+', o, True)
    def __sub__(self, o): return self._bin('-', o)
    def __rsub__(self, o): return self._bin('-', o, True)
    def __mul__(self, o): return self._bin('*', o)
    def __rmul__(self, o): return self._bin('*', o, True)
    def __truediv__(self, o): return self._bin('/', o)
    def __rtruediv__(self, o): return self._bin('/', o, True)
    def __neg__(self): return _arith('-', 0, self)
    def __pos__(self): return self

    def __abs__(self):
        return self if ctx().branch(to_term(self) >= 0) else -self

    def __pow__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return sym_pow(self, o)

    def __rpow__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return sym_pow(o, self)

    def _c(self, op, other):
        o = _coerce(other)
        if o is NotImplemented:
            return NotImplemented
        return _cmp(op, self, o)

    def __lt__(self, o): return self._c('<', o)
    def __le__(self, o): return self._c('<=', o)
    def __gt__(self, o): return self._c('>', o)
    def __ge__(self, o): return self._c('>=', o)

    def __eq__(self, o):
        r = self._c('==', o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c('!=', o)
        return True if r is NotImplemented else r

    def __bool__(self):
        return ctx().branch(to_term(self) != 0)

    def __hash__(self):
        return hash(('sym', self.t.get_id()))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    # object-array ufunc hooks
    def exp(self): return sym_exp(self)
    def log(self): return sym_log(self)
    def sqrt(self): return sym_sqrt(self)
    def conjugate(self): return self

    def isnan(self): return np.bool_(False)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arrays
        return arrays.ufunc_dispatch(ufunc, method, inputs, kwargs)


class SReal(_Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SReal({z3.simplify(self.t)})'

    def __float__(self):
        raise Unsupported('float() of a symbolic real reached C code')

    def __int__(self):
        raise Unsupported('int() of a symbolic real')

    def __floordiv__(self, o):
        q = self / o
        return SInt(z3.ToInt(to_term(q)))

    def __mod__(self, o):
        q = z3.ToInt(to_term(self / o))
        return SReal(self.t - z3.ToReal(q) * to_term(o))

    def is_integer(self):
        return bool(SBool(z3.IsInt(self.t)))


class SInt(_Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SInt({z3.simplify(self.t)})'

    def __index__(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported('a symbolic integer reached C code as an index')

    def __float__(self):
        raise Unsupported('float() of a symbolic integer reached C code')

    def __int__(self):
        return self.__index__()

    def __floordiv__(self, o):
        to = o.t if isinstance(o, SInt) else z3.IntVal(int(o))
        c = ctx()
        if not c.branch(to > 0):
            raise Unsupported('floor division by a non-positive symbolic integer')
        return SInt(self.t / to)

    def __rfloordiv__(self, o):
        return SInt(z3.IntVal(int(o))) // self

    def __mod__(self, o):
        to = o.t if isinstance(o, SInt) else z3.IntVal(int(o))
        if not ctx().branch(to > 0):
            raise Unsupported('modulo by a non-positive symbolic integer')
        return SInt(self.t % to)


class SBool:
    __slots__ = ('t',)
    __array_priority__ = 1000.0

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SBool({z3.simplify(self.t)})'

    def __bool__(self):
        return ctx().branch(self.t)

    def __hash__(self):
        return hash(('symb', self.t.get_id()))

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    @staticmethod
    def _b(o):
        if isinstance(o, SBool):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SBool(z3.And(self.t, b))
    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SBool(z3.Or(self.t, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SBool(z3.Xor(self.t, b))
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def __eq__(self, o):
        b = self._b(o)
        if b is None:
            if isinstance(o, (_Num, *_NUM)):
                return _cmp('==', self, o)
            return False
        return SBool(self.t == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if isinstance(r, SBool) else (not r)

    def __mul__(self, o):
        if isinstance(o, SBool):
            return self & o
        o = _coerce(o)
        return NotImplemented if o is NotImplemented else _arith('*', self, o)
    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, SBool):
            return self | o
        o = _coerce(o)
        return NotImplemented if o is NotImplemented else _arith('+', self, o)
    __radd__ = __add__

    def __lt__(self, o): return _cmp('<', self, o)
    def __gt__(self, o): return _cmp('>', self, o)

    def __int__(self):
        return 1 if bool(self) else 0

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def item(self): return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arrays
        return arrays.ufunc_dispatch(ufunc, method, inputs, kwargs)


# ---------------------------------------------------------------------------------------
# logic helpers for specifications (work in both modes)
# ---------------------------------------------------------------------------------------
def And(*xs):
    out = True
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
            continue
        out = x if out is True else out & x
    return out


def Or(*xs):
    out = False
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
            continue
        out = x if out is False else out | x
    return out


def Not(x):
    return ~x if isinstance(x, SBool) else (not bool(x))


def Implies(a, b):
    return Or(Not(a), b)


def ite(c, a, b):
    """value-level if-then-else in specifications (forks for non-uniform kinds)"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return SBool(z3.If(c.t, SBool._b(a), SBool._b(b)))
    if special(a) or special(b):
        return a if bool(c) else b
    return SReal(z3.If(c.t, to_term(a), to_term(b)))


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    return ite(a <= b, a, b)


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    return ite(a >= b, a, b)


# ---------------------------------------------------------------------------------------
# uninterpreted real functions with instantiated axioms (library contracts)
# ---------------------------------------------------------------------------------------
def _uf(name, args, axioms):
    """Constant standing for f(args); `axioms(const, args, others)` are asserted once."""
    c = ctx()
    key = (name, tuple(z3.simplify(a).sexpr() for a in args))
    if key in c.ufs:
        return c.ufs[key][0]
    const = z3.Real(c.fresh(name))
    others = [(v, a) for (n, _), (v, a) in c.ufs.items() if n == name]
    c.ufs[key] = (const, args)
    for ax in axioms(const, args, others):
        c.add(ax)
    return const


def _mono(const, args, others, guard=None):
    """strictly increasing in args[0] for equal remaining args"""
    out = []
    for v, a in others:
        same = [x == y for x, y in zip(args[1:], a[1:])]
        pre = same
        body = z3.And((a[0] < args[0]) == (v < const), (a[0] == args[0]) == (v == const))
        out.append(z3.Implies(z3.And(*pre), body) if pre else body)
        # fact of real arithmetic that spares the solver a nonlinear step: order of fractions over one denominator
        if z3.is_div(args[0]) and z3.is_div(a[0]):
            n1, d1 = args[0].children()
            n2, d2 = a[0].children()
            if d1.eq(d2):
                out.append(z3.Implies(d1 > 0, z3.And((a[0] < args[0]) == (n2 < n1), (a[0] == args[0]) == (n1 == n2))))
        for p, q in ((args[0], a[0]), (a[0], args[0])):
            if z3.is_div(p) and not z3.is_div(q):
                n1, d1 = p.children()
                out.append(z3.Implies(d1 > 0, z3.And((p < q) == (n1 < q * d1), (p == q) == (n1 == q * d1))))
    return out


def exp_term(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t) and t.as_fraction() == 0:
        return z3.RealVal(1)
    # exp(log(x)) = x
    c = ctx()
    for (n, _), (v, a) in list(c.ufs.items()):
        if n == 'LOG' and v.eq(t):
            return a[0]
    return _uf('EXP', (t,), lambda v, a, o: [v > 0, *_mono(v, a, o),
                                            (a[0] > 0) == (v > 1), (a[0] == 0) == (v == 1),
                                            v >= 1 + a[0]])


def log_term(t):
    """log of a term known to be positive on this path"""
    t = z3.simplify(t)
    if z3.is_rational_value(t) and t.as_fraction() == 1:
        return z3.RealVal(0)
    c = ctx()
    for (n, _), (v, a) in list(c.ufs.items()):
        if n == 'EXP' and v.eq(t):
            return a[0]
    v = _uf('LOG', (t,), lambda v, a, o: [*_mono(v, a, o), (a[0] > 1) == (v > 0), (a[0] == 1) == (v == 0)])
    # exp o log = id : relates LOG terms to EXP terms
    key = ('LOGLINK', t.sexpr())
    if key not in c.ufs:
        c.ufs[key] = (v, (t,))
        ke = ('EXP', (z3.simplify(v).sexpr(),))
        if ke not in c.ufs:
            others = [(vv, aa) for (n, _), (vv, aa) in c.ufs.items() if n == 'EXP']
            c.ufs[ke] = (t, (v,))
            for ax in _mono(t, (v,), others):
                c.add(ax)
        fs = _factors(t)
        if len(fs) > 1:
            parts = []
            for f, s in fs:
                parts.append((f, s))
            guard = z3.And(*[f > 0 for f, _ in parts])
            r = c.sat(z3.Not(guard))
            if r == z3.unsat:
                tot = z3.RealVal(0)
                for f, s in parts:
                    lf = log_term(f)
                    tot = tot + lf if s > 0 else tot - lf
                c.add(v == tot)
    return v


def _factors(t):
    """multiplicative factors with exponent sign"""
    if z3.is_mul(t):
        out = []
        for ch in t.children():
            out += _factors(ch)
        return out
    if z3.is_div(t):
        n, d = t.children()
        return _factors(n) + [(f, -s) for f, s in _factors(d)]
    return [(t, 1)]


def sym_exp(x):
    if special(x):
        return float(np.exp(float(x)))
    if not is_sym(x):
        return float(np.exp(float(x)))
    return SReal(exp_term(to_term(x)))


def sym_log(x):
    if not is_sym(x):
        if isinstance(x, (float, np.floating, int, np.integer)):
            x = float(x)
            if math.isnan(x) or x < 0:
                return NAN
            if x == 0:
                return -INF
            if math.isinf(x):
                return INF
            if x == 1:
                return 0.0
            return SReal(log_term(rv(x))) if _ctx is not None else math.log(x)
    t = to_term(x)
    if ctx().branch(t > 0):
        return SReal(log_term(t))
    if ctx().branch(t == 0):
        return -INF
    return NAN


def sym_sqrt(x):
    if not is_sym(x):
        return float(np.sqrt(float(x)))
    t = to_term(x)
    if not ctx().branch(t >= 0):
        return NAN
    v = _uf('SQRT', (z3.simplify(t),), lambda v, a, o: [v >= 0, v * v == a[0]])
    return SReal(v)


def sym_pow(a, b):
    if not is_sym(b):
        fb = float(b)
        if fb == int(fb) and 0 <= fb <= 4:
            out = SReal(z3.RealVal(1)) if fb == 0 else a
            for _ in range(int(fb) - 1):
                out = out * a
            return out
        if fb == int(fb) and -4 <= fb < 0:
            return 1.0 / sym_pow(a, -b)
        if fb == 0.5:
            return sym_sqrt(a)
    return sym_exp(b * sym_log(a))


def phi_term(t):
    t = z3.simplify(t)
    c = ctx()
    for (n, _), (v, a) in list(c.ufs.items()):
        if n == 'PPF' and v.eq(t):
            return a[0]
    return _uf('PHI', (t,), lambda v, a, o: [v > 0, v < 1, *_mono(v, a, o),
                                            (a[0] > 0) == (v > rv(0.5)), (a[0] == 0) == (v == rv(0.5))])


def ppf_term(p):
    """standard normal quantile of a level known to be in (0,1)"""
    p = z3.simplify(p)
    c = ctx()
    for (n, _), (v, a) in list(c.ufs.items()):
        if n == 'PHI' and v.eq(p):
            return a[0]
    v = _uf('PPF', (p,), lambda v, a, o: [*_mono(v, a, o), (a[0] > rv(0.5)) == (v > 0), (a[0] == rv(0.5)) == (v == 0)])
    kp = ('PHI', (z3.simplify(v).sexpr(),))
    if kp not in c.ufs:
        others = [(vv, aa) for (n, _), (vv, aa) in c.ufs.items() if n == 'PHI']
        c.ufs[kp] = (p, (v,))
        for ax in _mono(p, (v,), others):
            c.add(ax)
    return v


def norm_cdf(x, loc=0.0, scale=1.0):
    """contract of scipy.stats.norm.cdf (scalar)"""
    z = (x - loc) / scale if not (isinstance(loc, (int, float)) and loc == 0 and isinstance(scale, (int, float)) and scale == 1) else x
    if is_sym(scale):
        if not ctx().branch(to_term(scale) > 0):
            return NAN
    elif not special(scale) and float(scale) <= 0:
        return NAN
    if special(loc) or special(scale):
        return NAN
    if special(z):
        z = float(z)
        return NAN if math.isnan(z) else (0.0 if z < 0 else 1.0)
    if not is_sym(z):
        z = SReal(rv(z))
    return SReal(phi_term(to_term(z)))


def norm_ppf(p, loc=0.0, scale=1.0):
    """contract of scipy.stats.norm.ppf (scalar)"""
    if is_sym(scale):
        if not ctx().branch(to_term(scale) > 0):
            return NAN
    elif special(scale) or float(scale) <= 0:
        return NAN
    if special(loc) or special(p):
        return NAN
    if not is_sym(p):
        p = float(p)
        if p < 0 or p > 1:
            return NAN
        if p == 0:
            return -INF
        if p == 1:
            return INF
        p = SReal(rv(p))
    t = to_term(p)
    c = ctx()
    if c.branch(z3.And(t > 0, t < 1)):
        q = SReal(ppf_term(t))
        return q * scale + loc
    if c.branch(t == 0):
        return -INF
    if c.branch(t == 1):
        return INF
    return NAN


def norm_pdf(x, loc=0.0, scale=1.0):
    if special(x):
        return NAN if math.isnan(float(x)) else 0.0
    z = (x - loc) / scale
    t = z3.simplify(to_term(z))
    v = _uf('PDF', (t,), lambda v, a, o: [v > 0, v < rv(0.4)] + [z3.Implies(aa[0] * aa[0] == a[0] * a[0], vv == v) for vv, aa in o])
    return SReal(v) / scale


def weib_cdf(x, k, loc=0.0, scale=1.0):
    """contract of scipy.stats.weibull_min.cdf (scalar): 0 for x<=0, strictly increasing into (0,1)"""
    for par in (k, scale):
        if is_sym(par):
            if not ctx().branch(to_term(par) > 0):
                return NAN
        elif special(par) or float(par) <= 0:
            return NAN
    z = (x - loc) / scale
    if special(z):
        z = float(z)
        return NAN if math.isnan(z) else (0.0 if z < 0 else 1.0)
    t = to_term(z)
    c = ctx()
    if not c.branch(t > 0):
        return 0.0
    t = z3.simplify(t)
    kt = z3.simplify(to_term(k))
    for (n, _), (v, a) in list(c.ufs.items()):
        if n == 'WPPF' and v.eq(t) and a[1].eq(kt):
            return SReal(a[0])
    return SReal(_uf('WCDF', (t, kt), lambda v, a, o: [v > 0, v < 1, *_mono(v, a, o)]))


def weib_ppf(p, k, loc=0.0, scale=1.0):
    for par in (k, scale):
        if is_sym(par):
            if not ctx().branch(to_term(par) > 0):
                return NAN
        elif special(par) or float(par) <= 0:
            return NAN
    if special(p):
        return NAN
    if not is_sym(p):
        p = float(p)
        if p < 0 or p > 1:
            return NAN
        if p == 0:
            return loc
        if p == 1:
            return INF
        p = SReal(rv(p))
    t = to_term(p)
    c = ctx()
    if c.branch(z3.And(t > 0, t < 1)):
        pt = z3.simplify(t)
        kt = z3.simplify(to_term(k))
        v = None
        for (n, _), (vv, aa) in list(c.ufs.items()):
            if n == 'WCDF' and vv.eq(pt) and aa[1].eq(kt):
                v = aa[0]
        if v is None:
            v = _uf('WPPF', (pt, kt), lambda v, a, o: [v > 0, *_mono(v, a, o)])
            kp = ('WCDF', (z3.simplify(v).sexpr(), kt.sexpr()))
            if kp not in c.ufs:
                others = [(vv, aa) for (n, _), (vv, aa) in c.ufs.items() if n == 'WCDF']
                c.ufs[kp] = (pt, (v, kt))
                for ax in _mono(pt, (v, kt), others):
                    c.add(ax)
        return SReal(v) * scale + loc
    if c.branch(t == 0):
        return loc
    if c.branch(t == 1):
        return INF
    return NAN


def unif_cdf(x, loc=0.0, scale=1.0):
    """contract of scipy.stats.uniform.cdf: exact piecewise linear function"""
    if special(loc) or special(scale):
        return NAN
    if is_sym(scale):
        if not ctx().branch(to_term(scale) > 0):
            return NAN
    elif float(scale) <= 0:
        return NAN
    if special(x):
        x = float(x)
        return NAN if math.isnan(x) else (0.0 if x < 0 else 1.0)
    z = (x - loc) / scale
    if is_sym(z):
        if ctx().branch(to_term(z) <= 0):
            return 0.0
        if ctx().branch(to_term(z) >= 1):
            return 1.0
        return z
    return min(max(z, 0.0), 1.0)


def unif_ppf(p, loc=0.0, scale=1.0):
    if special(loc) or special(scale) or special(p):
        return NAN
    if is_sym(scale):
        if not ctx().branch(to_term(scale) > 0):
            return NAN
    elif float(scale) <= 0:
        return NAN
    if is_sym(p):
        if not ctx().branch(z3.And(to_term(p) >= 0, to_term(p) <= 1)):
            return NAN
    elif not 0 <= p <= 1:
        return NAN
    return loc + scale * p
