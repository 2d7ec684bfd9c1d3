"""C01 unit conversion is exact, consistent and never guesses"""
import json
import os
import tempfile
import numpy as np
import pandas as pd
from pelicun import base, assessment
from pyvc.contract import contract, Raised
from pyvc.core import And, Or

TABLE = base.parse_units(preserve_categories=True)
FLAT = {u: f for c in TABLE.values() for u, f in c.items()}
PHYS = {'mm': 1e-3, 'cm': 1e-2, 'km': 1e3, 'in': 0.0254, 'inch': 0.0254, 'ft': 0.3048, 'mile': 1609.344, 'minute': 60.0, 'hour': 3600.0,
        'day': 86400.0, 'g': 9.80665, 'kN': 1e3, 'kPa': 1e3, 'MPa': 1e6, 'GPa': 1e9, 'ton': 1e3, 'm': 1.0, 'sec': 1.0, 'm2': 1.0, 'm3': 1.0,
        'kg': 1.0, 'N': 1.0, 'Pa': 1.0, 'mps': 1.0, 'mps2': 1.0, 'Npm': 1.0, 'mph': 0.44704, 'cmps': 0.01}
DERIVED = {'mm2': ('mm', 2), 'cm2': ('cm', 2), 'km2': ('km', 2), 'in2': ('in', 2), 'inch2': ('in', 2), 'ft2': ('ft', 2),
           'mile2': ('mile', 2), 'in3': ('in', 3), 'inch3': ('in', 3), 'ft3': ('ft', 3), 'inps': ('in', 1), 'inchps': ('in', 1),
           'ftps': ('ft', 1), 'inps2': ('in', 1), 'inchps2': ('in', 1), 'ftps2': ('ft', 1), 'SF': ('ft', 2), 'LF': ('ft', 1)}
APPROX = {'lb': 0.45359237, 'lbf': 4.4482216, 'kip': 4448.2216, 'kips': 4448.2216, 'psi': 6894.757, 'ksi': 6894757.0, 'Mpsi': 6894757e3,
          'kNpm': 1e3, 'lbpft': 14.5939, 'kippft': 14593.9, 'kipspft': 14593.9, 'MJ': 1e6, 'kV': 1e3, 'KV': 1e3}


def _table(S):
    """contract of parse_units: every category maps unit names to positive factors (any table)"""
    t = {}
    for c, us in (('qa', ['a0', 'a1', 'a2']), ('qb', ['b0', 'b1'])):
        t[c] = {u: S.real('f_' + u, gt=0.0, scale=1.0) for u in us}
    return t


def _with(fn_owner, name, value):
    class W:
        def __enter__(self):
            self.o = getattr(fn_owner, name)
            setattr(fn_owner, name, value)

        def __exit__(self, *a):
            setattr(fn_owner, name, self.o)
    return W()


@contract('C01', 'convert_units', ['pelicun.base.convert_units'], runs=250, modules=[base],
          covers=['converted', 'foreign', 'unknown', 'category'])
def convert(S):
    """for every unit table: ratio of factors, same container, refusal of unknown/foreign units"""
    T = _table(S)
    flat = {u: f for c in T.values() for u, f in c.items()}
    cat = {u: c for c in T for u in T[c]}
    names = ['a0', 'a2', 'b0', 'zz']
    u, v = S.case('from', names), S.case('to', [*names, 'a1', ''])
    cg = S.case('category', [None, 'qa', 'qb', 'qz'])
    kind = S.case('container', ['float', 'list', 'array', 'array2', 'str', 'tuple'])
    sp = S.space('n', lo=1, hi=6)
    if kind == 'float':
        vals = S.real('x', scale=10)
    elif kind == 'array':
        vals = S.array('x', sp, scale=10)
    elif kind == 'str':
        vals = '3.0'
    else:
        vals = [S.real('x0', scale=10), S.real('x1', scale=10), S.real('x2')]
        if kind == 'tuple':
            vals = tuple(vals)
        if kind == 'array2':
            vals = S.vec(vals)
    snap = S.snapshot(vals)
    with _with(base, 'parse_units', lambda custom_file=None, *, preserve_categories=False: T if preserve_categories else flat):
        r = S.call(base.convert_units, vals, u, v, cg) if cg is not None else S.call(base.convert_units, vals, u, v)
        S.unchanged('caller values not modified', vals, snap)
        if kind in ('str', 'tuple'):
            S.refused('unsupported containers are refused', r, 'TypeError')
            return
        known = u in flat and v in flat
        if not known:
            S.refused('unknown units are refused', r, 'ValueError')
            S.cover('unknown')
            return
        if cat[u] != cat[v]:
            S.refused('units of different quantities are refused', r, 'ValueError')
            S.cover('foreign')
            return
        if cg is not None and cg != cat[u]:
            S.refused('units outside the requested category are refused', r, 'ValueError')
            S.cover('category')
            return
        S.no_raise('units of one quantity are converted', r)
        S.ensure('container kind preserved', _kind(S, r) == _kind(S, vals), f'{type(r)} for {type(vals)}')
        S.cover('converted')
        S.each('value times the ratio of the two factors', lambda x, y: S.eq(y * flat[v], x * flat[u]), S.cells(vals), S.cells(r))
        back = S.call(base.convert_units, r, v, u)
        S.no_raise('converting back', back)
        S.each('there and back returns the original', lambda x, y: S.eq(x, y), S.cells(vals), S.cells(back))
        if cat[u] == 'qa':
            via = S.call(base.convert_units, S.call(base.convert_units, vals, u, 'a1'), 'a1', v)
            S.no_raise('through a third unit', via)
            S.each('an intermediate unit changes nothing', lambda x, y: S.eq(x, y), S.cells(r), S.cells(via))


def _kind(S, x):
    if isinstance(x, list):
        return 'list'
    if hasattr(x, 'shape') and getattr(x, 'shape', ()) != ():
        return 'array'
    return 'scalar'


@contract('C01', 'AssessmentBase.calc_unit_scale_factor', ['pelicun.assessment.AssessmentBase.calc_unit_scale_factor',
                                                           'pelicun.assessment.AssessmentBase.scale_factor'],
          runs=200, modules=[assessment], covers=['plain', 'composite', 'unknown', 'none'])
def calc(S):
    """leading number times the factor of the unit, for every unit table and every number"""
    asm = object.__new__(assessment.AssessmentBase)
    f = {u: S.real('f_' + u, gt=0.0) for u in ('a0', 'b0')}
    asm.unit_conversion_factors = f
    u = S.case('unit', ['a0', 'b0', 'zz', ''])
    num = S.case('number', [None, '1', '10', '2.5', '1e3', '0.001', '-4'])
    sp = S.case('blank', ['', ' '])
    txt = sp + (u if num is None else f'{num} {u}') + sp
    r = S.call(asm.calc_unit_scale_factor, txt)
    if u not in f:
        S.refused('unknown units are refused', r, 'KeyError', 'ValueError')
        S.cover('unknown')
    else:
        S.no_raise('known units', r)
        S.ensure('number times factor', S.eq(r, f[u] * float(num or '1')))
        S.cover('plain' if num is None else 'composite')
    r = S.call(asm.scale_factor, u)
    if u in f:
        S.no_raise('known unit', r)
        S.ensure('factor of the unit', S.eq(r, f[u]))
    else:
        S.refused('scale_factor refuses unknown units', r, 'ValueError')
    r = S.call(asm.scale_factor, None)
    S.no_raise('no unit', r)
    S.ensure('no unit scales by one', S.eq(r, 1.0))
    S.cover('none')


@contract('C01', 'malformed unit strings', ['pelicun.assessment.AssessmentBase.calc_unit_scale_factor'], kind='runtime',
          bound='listed strings', runs=30, covers=['refused'])
def malformed(S):
    asm = assessment.AssessmentBase({'Verbose': False, 'PrintLog': False, 'LogFile': None})
    t = S.case('text', ['x ft2', 'ft2 10', '10 10', '10ft2', 'ft 2 3', '10 ft2 m', 'FT', 'sq ft', 'None'])
    S.refused('malformed unit strings are refused', S.call(asm.calc_unit_scale_factor, t), 'KeyError', 'ValueError')
    S.cover('refused')
    u = list(FLAT)[S.int('unit', 0, len(FLAT) - 1)]
    S.ensure('every default unit', S.eq(asm.calc_unit_scale_factor(u), FLAT[u]) and S.eq(asm.scale_factor(u), FLAT[u]))
    S.ensure('composite', S.eq(asm.calc_unit_scale_factor(f'7 {u}'), 7 * FLAT[u]))


@contract('C01', 'unit table', ['pelicun/settings/default_units.json', 'pelicun.base.parse_units', 'pelicun.base.convert_units'],
          kind='runtime', bound='every pair of default units (complete)', runs=2, covers=['all'])
def table(S):
    """the default table: categories are quantities, published factors, every pair converts or is refused"""
    raw = json.loads((base.pelicun_path / 'settings/default_units.json').read_text())
    S.ensure('parse_units returns the file', {c: {u: float(f) for u, f in t.items()} for c, t in raw.items()} == TABLE)
    S.ensure('flat table', base.parse_units() == FLAT and sum(map(len, TABLE.values())) == len(FLAT))
    for u, f in PHYS.items():
        S.ensure(f'factor of {u}', FLAT[u] == f, FLAT[u])
    for u, (b, p) in DERIVED.items():
        S.ensure(f'factor of {u}', abs(FLAT[u] / PHYS[b] ** p - 1) < 1e-9, FLAT[u])
    for u, f in APPROX.items():
        S.ensure(f'factor of {u}', abs(FLAT[u] / f - 1) < 1e-4, FLAT[u])
    dim = {'m': 'L', 'mm': 'L', 'cm': 'L', 'km': 'L', 'in': 'L', 'inch': 'L', 'ft': 'L', 'mile': 'L', 'm2': 'L2', 'mm2': 'L2', 'cm2': 'L2', 'km2': 'L2',
           'in2': 'L2', 'inch2': 'L2', 'ft2': 'L2', 'mile2': 'L2', 'm3': 'L3', 'in3': 'L3', 'ft3': 'L3', 'sec': 'T', 'g': 'A', 'mps': 'V', 'kg': 'M',
           'N': 'F', 'Pa': 'P', 'Npm': 'LF'}
    for c, t in TABLE.items():
        d = {dim[u] for u in t if u in dim}
        S.ensure('one quantity per category', len(d) <= 1, f'{c}: {d}')
    cat = {u: c for c, t in TABLE.items() for u in t}
    x = float(S.rng.normal())
    parse = base.parse_units
    with _with(base, 'parse_units', lambda *a, preserve_categories=False, **k: TABLE if preserve_categories else FLAT):
        for u in FLAT:
            for v in FLAT:
                r = S.call(base.convert_units, x, u, v)
                if cat[u] == cat[v]:
                    S.ensure(f'{u} to {v}', not isinstance(r, Raised) and S.eq(r, x * FLAT[u] / FLAT[v]))
                else:
                    S.ensure(f'{u} to {v} is refused', isinstance(r, Raised) and r.is_a('ValueError'))
    for u in list(FLAT)[:6]:
        S.ensure('with the real table', S.eq(base.convert_units(x, u, u), x))
    S.cover('all')


@contract('C01', 'parse_units', ['pelicun.base.parse_units', 'pelicun.base.dict_raise_on_duplicates'], kind='runtime', bound='generated unit files', runs=120,
          covers=['ok', 'dup', 'dup2', 'bad', 'notdict', 'missing', 'notjson'])
def parse(S):
    """custom tables are read exactly; duplicates and non-numeric factors are refused"""
    mode = S.case('mode', ['ok', 'ok', 'dup', 'dup2', 'bad', 'notdict', 'missing', 'notjson'])
    t = {}
    k = 0
    for c in range(S.int('categories', 1, 3)):
        t[f'c{c}'] = {}
        for _ in range(S.int(f'units{c}', 1, 3)):
            t[f'c{c}'][f'u{k}'] = S.case(f'form{k}', [1.5, 2, '3.25', 1e-6]) if True else 0
            k += 1
    txt = json.dumps(t)
    if mode == 'dup':
        txt = txt[:-2] + ', "u0": 3.0' + txt[-2:] if len(t) > 1 else txt[:-1] + ', "cx": {"u0": 1.0}}'
    elif mode == 'dup2':
        txt = '{"c0": {"u0": 1.0, "u0": 1.0}}'
    elif mode == 'bad':
        t['c0']['ux'] = S.case('bad', ['abc', None, [1], {}])
        txt = json.dumps(t)
    elif mode == 'notdict':
        t['cx'] = S.case('nd', [1.0, 'a', [1.0]])
        txt = json.dumps(t)
    elif mode == 'notjson':
        txt = txt[:-1]
    d = tempfile.mkdtemp(prefix='pyvc_c01_')
    p = os.path.join(d, 'units.json')
    try:
        if mode != 'missing':
            open(p, 'w').write(txt)
        flat = S.call(base.parse_units, p)
        S.cover(mode)
        if mode == 'ok':
            S.no_raise('valid file', flat)
            S.ensure('flat table as written', flat == {u: float(f) for c in t.values() for u, f in c.items()}, f'{flat} {t}')
            S.ensure('factors are floats', all(type(f) is float for f in flat.values()))
            tree = base.parse_units(p, preserve_categories=True)
            S.ensure('categories as written', tree == {c: {u: float(f) for u, f in x.items()} for c, x in t.items()})
        elif mode == 'missing':
            S.refused('missing files are refused', flat, 'FileNotFoundError')
        else:
            S.refused('invalid tables are refused', flat, 'ValueError', 'TypeError')
    finally:
        if os.path.exists(p):
            os.unlink(p)
        os.rmdir(d)
