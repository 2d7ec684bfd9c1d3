"""C28 capacity adjustments apply the specified operation to the right capacities"""
import numpy as np
import pandas as pd
from pelicun.model import damage_model
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite
from contracts.util import *
from contracts import gen

DSM = 'pelicun.model.damage_model.DamageModel_DS.'
OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}


@contract('C28', 'operation', [DSM + '_handle_operation'], kind='proof', modules=[damage_model], runs=100, covers=['+', '-', '*', '/', 'refused'])
def operation(S):
    m = damage_model.DamageModel_DS(base_assessment())
    a, b = S.real('value'), S.real('operand')
    op = S.case('op', ['+', '-', '*', '/', 'x', '', '^', '=', '**'])
    if op == '/':
        S.require(b != 0)
    r = S.call(m._handle_operation, a, op, b)
    if op not in OPS:
        S.refused('unknown operations are refused', r, 'ValueError')
        S.cover('refused')
        return
    S.no_raise('operations are applied', r)
    S.ensure('the prescribed operation', S.eq(r, OPS[op](a, b)))
    S.cover(op)


@contract('C28', 'operation lists', [DSM + '_handle_operation_list'], kind='bounded', modules=[damage_model], runs=100, bound='symbolic: 1-3 operations, any values; concrete: up to 12', covers=['one', 'many'])
def operation_list(S):
    m = damage_model.DamageModel_DS(base_assessment())
    k = S.size('k', 1, 12, sym=(1, 3))
    a = S.real('value')
    ops = [(S.case(f'op{i}', list(OPS)), S.real(f'b{i}')) for i in range(k)]
    for o, b in ops:
        if o == '/':
            S.require(b != 0)
    keep = list(ops)
    r = S.call(m._handle_operation_list, a, ops)
    S.no_raise('operations are applied', r)
    S.ensure('one value per operation', len(r) == k)
    S.ensure('operations kept', ops == keep)
    for i, (o, b) in enumerate(ops):
        S.ensure('each operation acts on the original value', S.eq(r[i], OPS[o](a, b)))
    S.cover('one' if k == 1 else 'many')


@contract('C28', 'malformed', ['pelicun.model.damage_model.DamageModel.calculate', DSM + '_create_dmg_RVs'], kind='runtime', runs=60, bound='texts listed in the harness')
def malformed(S):
    seed = S.int('rng', 1, 10 ** 6)
    C = gen.components(S, 1, 1, gaps=False, families=('lognormal',))
    a = full_assessment(Seed=seed)
    gen.demand(S, a, 1, 3)
    gen.asset(S, a, 1, 3, C)
    g = '-'.join(a.asset.cmp_sample.columns[0][:3])
    bad = S.case('spec', ['2.0', '=3', '^2', '*', '+abc', '', 2.0, ['*1', '*2', 'x3'], ['*1.0', 3, '*2'], '**2', '+-', 'LS', 'DS', 'ALL', '* two'])
    spec = {g: {'LS1': bad}}
    if bad == 'LS':
        spec = {g: {'DS1': '*2'}}
    elif bad == 'DS':
        spec = {g: {'1': '*2'}}
    elif bad == 'ALL':
        spec = {g: {'ALL': '*2', 'LS1': '*3'}}
    with quiet():
        a.damage.load_model_parameters([gen.damage_table(C)], set(C))
        r = S.call(a.damage.calculate, None, 100, spec)
    S.refused('malformed adjustments are refused', r, 'ValueError', 'TypeError', 'IndexError')
    S.ensure('no results', a.damage.ds_model.sample is None)


@contract('C28', 'capacities', [DSM + '_create_dmg_RVs', DSM + 'obtain_ds_sample', DSM + '_generate_dmg_sample'], kind='runtime', runs=200,
          bound='up to 4 component types with up to 4 limit states, 3 stories, 4 blocks, 12 realizations, any mix of adjustments', covers=['all limit states', 'one limit state', 'per realization', 'untouched', 'other family', '+', '-', '*', '/'])
def capacities(S):
    import warnings
    seed = S.int('rng', 1, 10 ** 6)
    stories, n, batch = S.int('stories', 1, 3), S.int('n', 2, 12), S.int('batch', 1, 12)
    C = gen.components(S, stories, S.int('types', 1, 4))
    S.drawn['components'] = C
    st = S.rng.bit_generator.state
    out, spec = [], None
    for k in range(2):
        S.rng.bit_generator.state = st
        a = full_assessment(Seed=seed)
        gen.demand(S, a, stories, n)
        gen.asset(S, a, stories, n, C)
        if k:
            spec = {}
            for g in dict.fromkeys('-'.join(c[:3]) for c in a.asset.cmp_sample.columns):
                if S.rng.random() < 0.6:
                    c = C[g.split('-')[0]]

                    def op(i):
                        th = c['ls'][i]['Theta_0'] * gen.REAL[c['unit']] if i else None
                        o = str(S.rng.choice(['*', '/'] if i is None else ['*', '/', '+', '-']))
                        v = S.rng.uniform(0.3, 3) if o in '*/' else S.rng.uniform(0.05, 0.8) * th
                        return f'{o}{v:.6g}'
                    pick = lambda i: op(i) if S.rng.random() < 0.6 else [op(i) for _ in range(n)]
                    if S.rng.random() < 0.4:
                        spec[g] = {'ALL': pick(None)}
                    else:
                        spec[g] = {f'LS{i}': pick(i) for i in c['ls'] if S.rng.random() < 0.6}
            spec['X-1-1'] = {'ALL': '*2'}
            S.drawn['spec'] = spec
        keep = copy.deepcopy(spec)
        with quiet(), gen.record() as rec, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            a.damage.load_model_parameters([gen.damage_table(C)], set(C))
            th = a.damage.ds_model.damage_params.copy(deep=True)
            r = S.call(a.damage.calculate, None, batch, spec)
            S.no_raise('calculated', r)
            S.ensure('adjustments kept', spec == keep)
            S.ensure('model parameters kept', a.damage.ds_model.damage_params.equals(th))
        out.append(rec)
    p, q = out
    S.ensure('same capacities', set(p.cap) == set(q.cap) and set(p.lsds) == set(q.lsds))
    for key in p.lsds:
        S.ensure('damage state choices unchanged', bool(np.array_equal(p.lsds[key], q.lsds[key])))
    for key in p.cap:
        c, i = C[key[0]], int(key[5])
        s = spec.get('-'.join(key[:3]), {})
        ops = s.get('ALL', s.get(f'LS{i}'))
        fam = c['ls'][i]['Family']
        if ops is None or fam == 'normal_std':
            S.ensure('other capacities unchanged', bool(np.array_equal(p.cap[key], q.cap[key])), f'{key} {spec}')
            S.cover('untouched' if ops is None else 'other family')
            continue
        t0 = c['ls'][i]['Theta_0'] * gen.REAL[c['unit']]
        many = isinstance(ops, list)
        ops = ops if many else [ops]
        for o in ops:
            S.cover(o[0])
        S.cover('per realization' if many else 'all limit states' if 'ALL' in s else 'one limit state')
        t1 = np.array([OPS[o[0]](t0, float(o[1:])) for o in ops])
        want = p.cap[key] * t1 / t0
        S.ensure('exactly the prescribed operation on the median capacity', bool(np.allclose(q.cap[key], want, rtol=1e-6)), f'{key} {s}: {p.cap[key]} -> {q.cap[key]} instead of {want}')
