"""Contracts and the two ways to run them.

A contract is a function `h(S)` that builds arguments satisfying the precondition with S, calls the real
function and states the postconditions with S.ensure / S.each / S.eq.

  SymS   symbolic mode: every ensure on every feasible path is a proof obligation (z3, then cvc5)
  ConcS  concrete mode: the same contract evaluated on concrete inputs against the unpatched code
"""
from __future__ import annotations
import copy
import math
import os
import subprocess
import tempfile
import time
import traceback
from fractions import Fraction
import numpy as np
import pandas as pd
import z3
from z3 import z3util
from . import core, arrays, lib
from .core import SReal, SInt, SBool, Unsupported, PathDone, Discard, is_sym, special
from .arrays import SArr, OArr, Space, ABSENT

REGISTRY = {}          # property -> [Contract]


class Contract:
    def __init__(self, prop, name, harness, targets, kind, bound, runs, modules, covers, sym, max_paths,
                 extra, weight):
        self.prop, self.name, self.harness = prop, name, harness
        self.targets = targets
        self.kind = kind              # 'proof' (unbounded), 'bounded' (symbolic, enumerated shapes), 'runtime'
        self.bound = bound
        self.runs = runs              # concrete evaluations (quick)
        self.modules = modules
        self.covers = covers
        self.sym = sym
        self.max_paths = max_paths
        self.extra = extra
        self.weight = weight


def contract(prop, name, targets, kind='proof', bound=None, runs=60, modules=(), covers=(), max_paths=4000,
             extra=None, weight=1):
    def deco(h):
        c = Contract(prop, name, h, list(targets), kind, bound, runs, tuple(modules), tuple(covers),
                     kind in ('proof', 'bounded'), max_paths, extra, weight)
        REGISTRY.setdefault(prop, []).append(c)
        return h
    return deco


class Raised:
    def __init__(self, exc):
        self.exc = exc
        self.type = type(exc).__name__
        self.msg = str(exc)

    def is_a(self, *names):
        return any(k.__name__ in names for k in type(self.exc).__mro__)

    def __repr__(self):
        return f'Raised({self.type}: {self.msg[:200]})'


class Violation(Exception):
    def __init__(self, label, detail=''):
        super().__init__(f'{label}: {detail}')
        self.label, self.detail = label, detail


# ---------------------------------------------------------------------------------------
def same(a, b, eq):
    """structural equality of values with numbers compared by `eq`"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a.keys()) == list(b.keys()) and \
            all_([same(a[k], b[k], eq) for k in a])
    if isinstance(a, (pd.DataFrame, pd.Series)) or isinstance(b, (pd.DataFrame, pd.Series)):
        if type(a) is not type(b) or a.shape != b.shape:
            return False
        if not a.index.equals(b.index) or list(a.index.names) != list(b.index.names):
            return False
        if isinstance(a, pd.DataFrame):
            if not a.columns.equals(b.columns) or list(a.columns.names) != list(b.columns.names):
                return False
        return same(a.to_numpy(dtype=object), b.to_numpy(dtype=object), eq)
    if isinstance(a, (pd.Index,)) or isinstance(b, (pd.Index,)):
        return type(a) is type(b) and a.equals(b) and list(a.names) == list(b.names)
    if isinstance(a, SArr) or isinstance(b, SArr):
        if not (isinstance(a, SArr) and isinstance(b, SArr)) or a.spaces != b.spaces or a.data.shape != b.data.shape:
            return False
        return all_([same(x, y, eq) for x, y in zip(a.data.flat, b.data.flat)])
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        return all_([same(x, y, eq) for x, y in zip(np.asarray(a, dtype=object).flat, np.asarray(b, dtype=object).flat)])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all_([same(x, y, eq) for x, y in zip(a, b)])
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return type(a) is type(b) and a == b
    num = (int, float, np.number, np.bool_, SReal, SInt, SBool, Fraction)
    if isinstance(a, num) and isinstance(b, num):
        return eq(a, b)
    return a is b or bool(a == b)


def all_(xs):
    return core.And(*xs) if xs else True


# ---------------------------------------------------------------------------------------
class Base:
    symbolic = False

    def call(self, fn, *a, **k):
        try:
            return fn(*a, **k)
        except (Unsupported, Violation):
            raise
        except Exception as e:     # noqa: BLE001
            return Raised(e)

    def snapshot(self, obj):
        return copy.deepcopy(obj)

    def unchanged(self, label, obj, snap):
        self.ensure(label, same(obj, snap, self.exact))

    def no_raise(self, label, r):
        self.ensure(label, not isinstance(r, Raised), detail=repr(r))
        if isinstance(r, Raised):
            self.stop()
        return r

    def refused(self, label, r, *types):
        self.ensure(label, isinstance(r, Raised) and (not types or r.is_a(*types)),
                    detail=f'expected an error, got {type(r).__name__} {str(r)[:200]}')

    def each(self, label, fn, *arrs):
        """fn(cells...) holds at every index"""
        cols = [self.cells(a) for a in arrs]
        n = max(len(c) for c in cols)
        cols = [c * n if len(c) == 1 and n > 1 else c for c in cols]
        if any(len(c) != n for c in cols):
            self.ensure(label, False, detail=f'lengths differ: {[len(c) for c in cols]}')
            return
        for row in zip(*cols):
            if any(v is ABSENT for v in row):
                continue
            self.ensure(label, fn(*row), detail=f'at {row!r}')

    def same(self, label, a, b):
        self.ensure(label, same(a, b, self.eq), detail=f'{_short(a)} != {_short(b)}')


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


class SymS(Base):
    symbolic = True

    def __init__(self, ctx, contract, out, timeouts=(2000, 15000)):
        self.c, self.k, self.out = ctx, contract, out
        self.timeouts = timeouts

    # -- inputs
    def _reg(self, name, v):
        self.c.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None, **_):
        v = SReal(z3.Real(name))
        for b, f in ((lo, lambda t, b: t >= b), (hi, lambda t, b: t <= b), (gt, lambda t, b: t > b), (lt, lambda t, b: t < b)):
            if b is not None:
                self.c.add_universal(f(v.t, core.to_term(b)))
        return self._reg(name, v)

    def int(self, name, lo=None, hi=None, **_):
        v = SInt(z3.Int(name))
        if lo is not None:
            self.c.add(v.t >= lo)
        if hi is not None:
            self.c.add(v.t <= hi)
        return self._reg(name, v)

    def bool(self, name):
        return self.case(name, [False, True])

    def case(self, name, options):
        i = self.c.choose(len(options))
        self.c.cases[name] = i
        return options[i]

    def size(self, name, lo, hi, sym=None):
        """a concrete size enumerated in symbolic mode (bounded)"""
        lo2, hi2 = sym or (lo, hi)
        v = self.case(name, list(range(lo2, hi2 + 1)))
        self.c.inputs['size:' + name] = v
        return v

    def space(self, name, **_):
        sp = Space(name)
        lib.register_space(sp)
        self.c.inputs['space:' + name] = sp.len
        return sp

    def array(self, name, space, lo=None, hi=None, gt=None, lt=None, special=(), **_):
        """vector over an index set; `special` values (nan/inf) are cases for the generic cell"""
        if special:
            j = self.case(name + ':kind', [None, *special])
            if j is not None:
                d = np.empty(1, dtype=object)
                d[0] = j
                self.c.inputs[name] = SArr(d.copy(), (space,))
                return SArr(d, (space,))
        v = SReal(z3.Real(name))
        for b, f in ((lo, lambda t, b: t >= b), (hi, lambda t, b: t <= b), (gt, lambda t, b: t > b), (lt, lambda t, b: t < b)):
            if b is not None:
                self.c.add_universal(f(v.t, core.to_term(b)))
        d = np.empty(1, dtype=object)
        d[0] = v
        self.c.inputs[name] = SArr(d.copy(), (space,))
        return SArr(d, (space,))

    def vec(self, vals):
        return arrays.obj_array(list(vals))

    def data(self, name, space):
        """data vector of arbitrary length"""
        return arrays.FnArr(name, space)

    def at(self, seq, i):
        if isinstance(seq, (arrays.FnArr, lib.SampleSeq)):
            return seq.at(i)
        if isinstance(seq, SArr):
            if seq.spaces[0] is not None and isinstance(i, SInt):
                g = z3.Int(f'idx_{seq.spaces[0].name}_{id(seq.spaces[0])}')
                # the generic index of the array is the arbitrary index of the clause
                if not g.eq(i.t):
                    core.ctx().add(g == i.t)
            return seq.data.flat[0] if seq.spaces[0] is not None else seq.data[i]
        return seq[i]

    def length(self, seq):
        return lib.b_len(seq)

    def index(self, name, n):
        """an arbitrary index below n"""
        i = self.int(name, lo=0)
        self.require(i < n)
        return i

    def cells(self, a):
        if isinstance(a, SArr):
            return list(a.data.flat)
        if isinstance(a, np.ndarray):
            return list(np.asarray(a, dtype=object).flat)
        if isinstance(a, (list, tuple)):
            return list(a)
        return [a]

    # -- logic
    def eq(self, a, b):
        if special(a) or special(b):
            return special(a) and special(b) and (a == b or (math.isnan(a) and math.isnan(b)))
        if not is_sym(a) and not is_sym(b):
            return bool(core.to_term(a).eq(core.to_term(b))) or bool(a == b)
        return a == b
    exact = eq

    def le(self, a, b): return a <= b
    def ge(self, a, b): return a >= b
    def lt(self, a, b): return a < b
    def near(self, a, b): return self.eq(a, b)

    def require(self, cond):
        self.c.assume(cond)
        # a precondition on scalars alone holds at every index
        names = {n for n, v in self.c.inputs.items() if isinstance(v, SArr)}
        if isinstance(cond, core.SBool) and not names & {str(x) for x in z3util.get_vars(cond.t)}:
            self.c.universal.append(cond.t)

    def stop(self):
        raise PathDone('stop')

    def note(self, *a, **k): pass

    def cover(self, label):
        self.out.covers.add(label)

    # -- obligations
    def ensure(self, label, cond, detail=''):
        out = self.out
        out.labels[label] = out.labels.get(label, 0) + 1
        out.obligations += 1
        try:
            if isinstance(cond, np.ndarray) or isinstance(cond, SArr):
                cond = core.And(*[arrays._tob(v) for v in self.cells(cond) if v is not ABSENT])
            t = core.to_bool_term(cond)
        except Unsupported as e:
            out.fail(self, label, 'unsupported', str(e), None)
            return
        if t is True:
            out.discharged['trivial'] = out.discharged.get('trivial', 0) + 1
            return
        goal = z3.BoolVal(False) if t is False else t
        t0 = time.time()
        res, backend, model, info = prove(self.c, goal, self.timeouts)
        dt = time.time() - t0
        out.solver_s += dt
        out.slowest = max(out.slowest, (dt, label))
        if res == 'proved':
            out.discharged[backend] = out.discharged.get(backend, 0) + 1
        else:
            out.fail(self, label, res, f'{info} {detail}'.strip(), model)

    def ensure_exists(self, label, cond, detail=''):
        """a claim that needs a witness at the generic index: not claimed when the witness is elsewhere"""
        if self.c.elsewhere:
            return
        self.ensure(label, cond, detail)


def prove(c, goal, timeouts):
    """(result, backend, model, info) for pc => goal"""
    s = c.solver
    s.push()
    s.set('timeout', timeouts[0])
    s.add(z3.Not(goal))
    r = s.check()
    m = None
    if r == z3.sat:
        m = s.model()
    s.pop()
    s.set('timeout', 3000)
    if r == z3.unsat:
        return 'proved', 'z3', None, ''
    if r == z3.sat:
        return 'refuted', 'z3', m, 'counterexample'
    s2 = z3.Solver()
    s2.set('timeout', timeouts[1])
    for p in c.pc:
        s2.add(p)
    s2.add(z3.Not(goal))
    r = s2.check()
    if r == z3.unsat:
        return 'proved', 'z3', None, ''
    if r == z3.sat:
        return 'refuted', 'z3', s2.model(), 'counterexample'
    try:
        s3 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'qfnra-nlsat').solver()
        s3.set('timeout', timeouts[1])
        for p in c.pc:
            s3.add(p)
        s3.add(z3.Not(goal))
        r = s3.check()
        if r == z3.unsat:
            return 'proved', 'z3-nlsat', None, ''
        if r == z3.sat:
            return 'refuted', 'z3-nlsat', s3.model(), 'counterexample'
    except z3.Z3Exception:
        pass
    r, txt = cvc5_check(s2, timeouts[1])
    if r == 'unsat':
        return 'proved', 'cvc5', None, ''
    return 'undischarged', 'z3+cvc5', None, f'solver answered unknown ({s2.reason_unknown()}; cvc5: {txt})'


def cvc5_check(solver, ms):
    q = '(set-logic ALL)\n' + solver.to_smt2()
    q = q.replace('(set-info :status unknown)', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(q)
        p = f.name
    try:
        r = subprocess.run(['cvc5', f'--tlimit={ms}', '--nl-cov', p], capture_output=True, text=True, timeout=ms / 1000 + 10)
        o = r.stdout.strip().splitlines()
        return (o[0] if o else 'error'), (o[0] if o else r.stderr[:100])
    except Exception as e:     # noqa: BLE001
        return 'error', str(e)[:100]
    finally:
        os.unlink(p)


def model_value(m, v):
    if isinstance(v, SArr):
        return {'cells': [model_value(m, x) for x in v.data.flat]}
    if isinstance(v, (SReal, SInt, SBool)):
        t = m.eval(v.t, model_completion=True)
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return int(f) if isinstance(v, SInt) else float(f)
        if z3.is_algebraic_value(t):
            a = t.approx(20)
            return float(a.as_fraction())
        if z3.is_true(t) or z3.is_false(t):
            return z3.is_true(t)
        return 0.0
    return v


class SymOut:
    """result of the symbolic run of one contract"""

    def __init__(self):
        self.obligations = 0
        self.discharged = {}
        self.labels = {}
        self.covers = set()
        self.failures = []
        self.paths = 0
        self.infeasible = 0
        self.solver_s = 0.0
        self.slowest = (0.0, '')
        self.complete = True
        self.libs = set()
        self.feas = 0

    def fail(self, S, label, kind, info, model):
        vals = {}
        if model is None and kind != 'unsupported':
            if S.c.solver.check() == z3.sat:
                model = S.c.solver.model()
        if model is not None:
            for n, v in S.c.inputs.items():
                try:
                    vals[n] = model_value(model, v)
                except Exception:    # noqa: BLE001
                    pass
        if len(self.failures) < 60:
            self.failures.append({'label': label, 'kind': kind, 'info': info[:1500], 'values': vals,
                                  'cases': dict(S.c.cases), 'path': [str(z3.simplify(p))[:200] for p in S.c.pc[-12:]]})
        else:
            self.failures.append({'label': label, 'kind': kind, 'info': '', 'values': {}, 'cases': {}, 'path': []})


def explore(k, deadline, timeouts=(2000, 10000), max_failures=12):
    """run contract k symbolically over all feasible paths"""
    out = SymOut()
    t0 = time.time()
    stack = [[]]
    lib.used.clear()
    while stack:
        if time.time() > deadline or out.paths >= k.max_paths or len(out.failures) >= max_failures:
            out.complete = False
            break
        prefix = stack.pop()
        c = core.Ctx(prefix)
        core.set_ctx(c)
        S = SymS(c, k, out, timeouts)
        arrays.Space._n = 0
        try:
            with lib.install(k.modules, k.extra):
                k.harness(S)
            out.paths += 1
        except PathDone as e:
            if str(e) == 'stop':
                out.paths += 1
            else:
                out.infeasible += 1
        except Unsupported as e:
            out.paths += 1
            out.obligations += 1
            out.fail(S, 'engine', 'unsupported', _where(e), None)
        except Exception as e:     # noqa: BLE001
            out.paths += 1
            out.obligations += 1
            out.fail(S, 'no unexpected exception', 'exception', _where(e), None)
        finally:
            core.set_ctx(None)
        out.feas += c.stats.get('feas', 0)
        stack.extend(c.alts)
    out.libs = set(lib.used)
    out.wall = round(time.time() - t0, 1)
    if not out.complete:
        out.left = len(stack)
    return out


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-4:]))
    return f'{type(e).__name__}: {str(e)[:300]} [{loc}]'


# ---------------------------------------------------------------------------------------
NICE = [0.0, 1.0, -1.0, 0.5, 2.0, 3.0, 10.0, 0.1, -0.5, 100.0, 1e-3]


class ConcS(Base):
    RTOL = 1e-7

    def __init__(self, contract, seed, values=None, tier='quick'):
        self.k = contract
        self.seed = seed
        self.rng = np.random.default_rng(seed)
        self.values = values or {}
        self.drawn = {}
        self.checks = 0
        self.notes = {}
        self.cov = set()
        self.tier = tier

    def _given(self, name):
        return name in self.values

    def _take(self, name, v):
        self.drawn[name] = v
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None, near=None, scale=1.0, **_):
        if self._given(name):
            return self._take(name, float(self.values[name]))
        lo = lo if lo is not None else gt
        hi = hi if hi is not None else lt
        lo, hi = (None if b is None else (float(b)) for b in (lo, hi))
        for _ in range(50):
            v = self._draw(lo, hi, scale)
            if (gt is None or v > gt) and (lt is None or v < lt):
                return self._take(name, v)
        raise Discard

    def _draw(self, lo, hi, scale):
        g = self.rng
        u = g.random()
        if lo is not None and hi is not None:
            if u < 0.1:
                return lo
            if u < 0.2:
                return hi
            return float(lo + (hi - lo) * g.random())
        if lo is None and hi is None:
            if u < 0.15:
                return float(g.choice(NICE)) * scale
            return float(g.normal() * scale * g.choice([0.1, 1.0, 3.0]))
        base = lo if lo is not None else hi
        sgn = 1 if lo is not None else -1
        if u < 0.08:
            return base
        if u < 0.2:
            return base + sgn * float(g.choice([1.0, 2.0, 0.5, 10.0])) * scale
        return base + sgn * float(g.gamma(1.5)) * scale * float(g.choice([0.1, 1.0, 3.0]))

    def int(self, name, lo=0, hi=10, **_):
        if self._given(name):
            return self._take(name, int(self.values[name]))
        return self._take(name, int(self.rng.integers(lo if lo is not None else -5, (hi if hi is not None else (lo or 0) + 12) + 1)))

    def bool(self, name):
        return self.case(name, [False, True])

    def case(self, name, options):
        key = 'case:' + name
        i = int(self.values[key]) if key in self.values else int(self.rng.integers(len(options)))
        self.drawn[key] = i
        return options[i]

    def size(self, name, lo, hi, sym=None):
        return self.int('size:' + name, lo, hi)

    def space(self, name, lo=1, hi=7, **_):
        key = 'space:' + name
        if key in self.values and isinstance(self.values[key], int) and lo <= self.values[key] <= 50:
            n = self.values[key]
        else:
            n = int(self.rng.integers(lo, hi + 1))
        self.drawn[key] = n
        return CSpace(n)

    def array(self, name, space, lo=None, hi=None, gt=None, lt=None, special=(), scale=1.0, **_):
        n = space.len
        v = self.values.get(name)
        if isinstance(v, dict):
            cells = [float(x) for x in v['cells']]
            out = []
            for i in range(n):
                out.append(cells[0] if (i == 0 or self.rng.random() < 0.5) else self._cell(name, lo, hi, gt, lt, special, scale))
            out = np.array(out, dtype=float)
        elif v is not None:
            out = np.array(v, dtype=float)
        else:
            out = np.array([self._cell(name, lo, hi, gt, lt, special, scale) for _ in range(n)], dtype=float)
        self.drawn[name] = [float(x) for x in out]
        return out

    def _cell(self, name, lo, hi, gt, lt, spc, scale):
        if spc and self.rng.random() < 0.3:
            return spc[int(self.rng.integers(len(spc)))]
        lo = lo if lo is not None else gt
        hi = hi if hi is not None else lt
        for _ in range(50):
            v = self._draw(None if lo is None else float(lo), None if hi is None else float(hi), scale)
            if (gt is None or v > gt) and (lt is None or v < lt):
                return v
        raise Discard

    def vec(self, vals):
        return np.array(list(vals), dtype=float)

    def data(self, name, space):
        return self.array(name, space, scale=5)

    def at(self, seq, i):
        return seq[int(i)]

    def length(self, seq):
        return len(seq)

    def index(self, name, n):
        if self._given(name):
            self.require(0 <= int(self.values[name]) < n)
            return self._take(name, int(self.values[name]))
        if n <= 0:
            raise Discard
        return self._take(name, int(self.rng.integers(0, n)))

    def cells(self, a):
        if isinstance(a, (pd.DataFrame, pd.Series)):
            a = a.to_numpy()
        if isinstance(a, np.ndarray):
            return list(a.flat)
        if isinstance(a, (list, tuple)):
            return list(a)
        return [a]

    def eq(self, a, b):
        a, b = _f(a), _f(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self.RTOL * max(1.0, abs(a), abs(b)) if max(abs(a), abs(b)) > 1e-3 else \
            abs(a - b) <= self.RTOL * max(1e-3, abs(a), abs(b)) * 10

    def exact(self, a, b):
        a, b = _f(a), _f(b)
        return a == b or (math.isnan(a) and math.isnan(b))

    def near(self, a, b, rtol=1e-4):
        a, b = _f(a), _f(b)
        return self.eq(a, b) or abs(a - b) <= rtol * max(1e-3, abs(a), abs(b))

    def le(self, a, b): return bool(a <= b) or self.eq(a, b)
    def ge(self, a, b): return bool(a >= b) or self.eq(a, b)
    def lt(self, a, b): return bool(a < b)

    def require(self, cond):
        if not bool(cond):
            raise Discard

    def stop(self):
        raise Discard

    def note(self, **k):
        for a, v in k.items():
            self.notes[a] = _short(v)

    def cover(self, label):
        self.cov.add(label)

    def ensure(self, label, cond, detail=''):
        self.checks += 1
        if isinstance(cond, np.ndarray):
            cond = bool(np.all(cond))
        if not bool(cond):
            raise Violation(label, str(detail)[:1500])

    ensure_exists = ensure


def _f(a):
    try:
        return float(a)
    except TypeError:
        return float('nan')


class CSpace:
    def __init__(self, n): self.len = n


def run_concrete(k, seed, values=None, tier='quick'):
    """None (held), 'discard', or a violation dict"""
    S = ConcS(k, seed, values, tier)
    try:
        with np.errstate(all='ignore'):
            k.harness(S)
    except Discard:
        return ('held' if S.checks else 'discard'), S
    except Violation as v:
        return {'label': v.label, 'detail': v.detail, 'seed': seed, 'drawn': S.drawn, 'notes': S.notes}, S
    except Exception as e:     # noqa: BLE001
        return {'label': 'no unexpected exception', 'detail': _where(e), 'seed': seed, 'drawn': S.drawn, 'notes': S.notes}, S
    return 'held', S


def _columns_sym(self, *cols):
    """matrix with one row per index and the given vectors as columns"""
    if not any(isinstance(c, SArr) and c.spaces[0] is not None for c in cols):
        return arrays.obj_array([list(r) for r in zip(*[np.asarray(c.data if isinstance(c, SArr) else c, dtype=object) for c in cols])])
    d = np.empty((1, len(cols)), dtype=object)
    sp = None
    for j, c in enumerate(cols):
        if isinstance(c, SArr):
            sp = c.spaces[0]
            d[0, j] = c.data.flat[0]
        else:
            d[0, j] = c
    return SArr(d, (sp, None))


def _columns_conc(self, *cols):
    n = max(len(c) for c in cols if isinstance(c, np.ndarray))
    return np.column_stack([c if isinstance(c, np.ndarray) else np.full(n, c) for c in cols]).astype(float)


SymS.columns = _columns_sym
ConcS.columns = _columns_conc
