"""C09 user settings always win and defaults only fill gaps"""
import copy
import json
import numpy as np
import pandas as pd
from pelicun import base
from pyvc.contract import contract, Raised
from contracts.util import *


class Tok:
    """an arbitrary setting: equal only to itself"""

    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
    def __deepcopy__(self, memo): return self


class Clash(Exception):
    pass


def spec(u, d):
    """effective configuration; Clash when a group meets a value"""
    out = dict(u)
    for k in d:
        if isinstance(d[k], dict):
            if k not in u:
                out[k] = spec({}, d[k])
            elif not isinstance(u[k], dict):
                raise Clash(k)
            else:
                out[k] = spec(u[k], d[k])
        elif k not in u:
            out[k] = d[k]
        elif isinstance(u[k], dict):
            raise Clash(k)
    return out


def merged(u, d):
    try:
        return spec(u, d)
    except Clash as e:
        return e


def eqtree(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(eqtree(a[k], b[k]) for k in a)
    return a is b or (type(a) is type(b) and a == b)


def nested(S, name, depth):
    """all the ways a key can be set: missing, a value, a group"""
    k = S.case(name, ['missing', 'value', 'falsy', 'empty', 'group', 'deep'] if depth else ['missing', 'value'])
    if k == 'missing':
        return None
    if k == 'value':
        return Tok(name)
    if k == 'falsy':
        return (False,)
    if k == 'empty':
        return {}
    if k == 'group':
        return {'x': Tok(name + '.x')}
    return {'x': {'y': Tok(name + '.x.y')}, 'z': Tok(name + '.z')}


@contract('C09', 'update_vals', ['pelicun.base.update_vals'], kind='bounded', modules=[base], runs=150, max_paths=20000,
          bound='two keys per level, every combination of missing/value/group; nested groups by the contract of the recursive call',
          covers=['merged', 'refused'])
def update_vals(S):
    """one level of the merge, the recursive calls replaced by this contract"""
    d, u = {}, {}
    for k in ('a', 'b'):
        v, w = nested(S, 'default ' + k, 1), nested(S, 'user ' + k, 1)
        if v is not None:
            d[k] = v if not isinstance(v, tuple) else 0
        if w is not None:
            u[k] = w if not isinstance(w, tuple) else False
    if S.case('user only key', [False, True]):
        u['own'] = Tok('own')
    exp = merged(u, d)
    du, dd = copy.deepcopy(u), copy.deepcopy(d)
    real = base.update_vals
    state = {'n': 0}

    def callee(update_value, primary, update_path, primary_path):
        state['n'] += 1
        m = merged(update_value, primary)
        if isinstance(m, Clash):
            raise ValueError(f'{update_path}["{m}"]')
        update_value.clear()
        update_value.update(m)
    with swap(base, 'update_vals', callee):
        r = S.call(real, u, d, 'user', 'default')
    S.ensure('defaults unchanged', eqtree(d, dd))
    if isinstance(exp, Clash):
        S.refused('a group in place of a value (or the reverse) is refused', r, 'ValueError')
        S.ensure('the error names the setting', isinstance(r, Raised) and f'"{exp}"' in r.msg, repr(r))
        S.cover('refused')
        return
    S.no_raise('compatible settings are merged', r)
    S.ensure('user settings kept, gaps filled, nothing else', eqtree(u, exp), f'{u} != {exp}')
    S.cover('merged')


def tree(S, depth=3, wide=3, keys='abcd', vals=None):
    g = S.rng
    out = {}
    for k in g.permutation(list(keys))[: int(g.integers(0, wide + 1))]:
        if depth and g.random() < 0.4:
            out[str(k)] = tree(S, depth - 1, wide, keys, vals)
        else:
            vs = [None, False, True, 0, 1, 2.5, '', 'x', [], [1, 2], {}] if vals is None else vals
            out[str(k)] = copy.deepcopy(vs[int(g.integers(len(vs)))])
    return out


@contract('C09', 'update_vals[deep]', ['pelicun.base.update_vals'], kind='runtime', bound='random trees up to four levels', runs=400,
          covers=['merged', 'refused'])
def deep(S):
    d, u = tree(S), tree(S)
    S.drawn['defaults'], S.drawn['user'] = d, u
    dd, uu = copy.deepcopy(d), copy.deepcopy(u)
    exp = merged(uu, dd)
    r = S.call(base.update_vals, u, d, 'user', 'default')
    S.ensure('defaults unchanged', eqtree(d, dd))
    if isinstance(exp, Clash):
        S.refused('refused', r, 'ValueError')
        S.ensure('the error names the setting', f'["{exp}"]' in r.msg, r.msg)
        S.cover('refused')
        return
    S.no_raise('merged', r)
    S.ensure('effective configuration', eqtree(u, exp), f'{u} != {exp}')
    S.cover('merged')
    again = copy.deepcopy(u)
    S.call(base.update_vals, u, d, 'user', 'default')
    S.ensure('merging twice changes nothing', eqtree(u, again))


def user_tree(S, d):
    """user settings for (some of) the default settings"""
    g = S.rng
    u = {}
    for k, v in d.items():
        if g.random() < 0.5:
            continue
        if isinstance(v, dict):
            u[k] = user_tree(S, v)
            if k in ('DemandOffset', 'NonDirectionalMultipliers') and g.random() < 0.5:
                u[k]['PGV'] = -1
        elif isinstance(v, bool):
            u[k] = bool(g.integers(2))
        elif isinstance(v, (int, float)):
            u[k] = float(g.integers(1, 50)) if k == 'RepairCostAndTimeCorrelation' else int(g.integers(-3, 500))
        elif k == 'Seed':
            u[k] = int(g.integers(1, 1000))
        elif k == 'SamplingMethod':
            u[k] = str(g.choice(['LHS', 'MonteCarlo', 'LHS_midpoint']))
    return u


@contract('C09', 'merge_default_config and Options', ['pelicun.base.merge_default_config', 'pelicun.base.Options.__init__',
                                                     'pelicun.base.load_default_options'], kind='runtime',
          bound='random user configurations, histories of 3 merges', runs=60, covers=['options', 'none'])
def options(S):
    D = json.loads((base.pelicun_path / 'settings/default_config.json').read_text())['Options']
    for step in range(3):
        S.ensure('stored defaults unchanged', eqtree(base.load_default_options(), D))
        u = None if S.rng.random() < 0.2 else user_tree(S, D)
        if u is not None:
            if S.rng.random() < 0.3:
                u['Custom'] = {'a': 1}
            u['PrintLog'], u['Verbose'] = False, False
        S.drawn[f'user{step}'] = u
        exp = merged({} if u is None else copy.deepcopy(u), D)
        m = S.call(base.merge_default_config, copy.deepcopy(u))
        S.no_raise('valid settings', m)
        S.ensure('effective configuration', eqtree(m, exp), f'{m} != {exp}')
        o = S.call(base.Options, copy.deepcopy(u))
        S.no_raise('options', o)
        S.cover('none' if u is None else 'options')
        for attr, val in (('sampling_method', exp['Sampling']['SamplingMethod']), ('list_all_ds', exp['ListAllDamageStates']),
                          ('units_file', exp['UnitsFile']), ('demand_offset', exp['DemandOffset']), ('seed', exp['Seed']),
                          ('nondir_multi_dict', exp['NonDirectionalMultipliers']), ('rho_cost_time', exp['RepairCostAndTimeCorrelation']),
                          ('eco_scale', exp['EconomiesOfScale']), ('error_setup', exp['ErrorSetup'])):
            S.ensure(f'option {attr}', eqtree(getattr(o, attr), val), f'{getattr(o, attr)} != {val}')
        S.ensure('logger', o.log.verbose == exp['Verbose'] and o.log.log_show_ms == exp['LogShowMS'] and o.log.print_log == exp['PrintLog'])
        # use and change the merged configuration
        o.demand_offset['PFA'] = 99
        o.nondir_multi_dict['PID'] = 7.0
        o.error_setup['Loss'] = None
        m['Sampling']['SampleSize'] = -1
        m['EconomiesOfScale'].clear()
        o.seed = 3


@contract('C09', 'refusals', ['pelicun.base.merge_default_config', 'pelicun.base.Options.__init__'], kind='runtime', bound='every default setting',
          runs=40, covers=['refused'])
def refusals(S):
    D = base.load_default_options()
    paths = []

    def walk(d, p):
        for k, v in d.items():
            paths.append(([*p, k], isinstance(v, dict)))
            if isinstance(v, dict):
                walk(v, [*p, k])
    walk(D, [])
    p, group = paths[S.int('setting', 0, len(paths) - 1)]
    u = cur = {}
    for k in p[:-1]:
        cur[k] = {}
        cur = cur[k]
    cur[p[-1]] = S.case('wrong', [1, None, 'x', False]) if group else S.case('wrong group', [{}, {'a': 1}])
    r = S.call(base.merge_default_config, u)
    S.refused('a group in place of a value (or the reverse) is refused', r, 'ValueError')
    S.ensure('the error names the setting', f'"{p[-1]}"' in r.msg, r.msg)
    S.refused('also when creating an assessment', S.call(base_assessment, **{p[0]: u[p[0]]}), 'ValueError')
    S.cover('refused')


@contract('C09', 'assessments do not share settings', ['pelicun.assessment.AssessmentBase.__init__', 'pelicun.base.Options'], kind='runtime',
          bound='pairs of assessments', runs=25, covers=['isolated'])
def isolated(S):
    ref = base_assessment()
    u1, u2 = user_tree(S, base.load_default_options()), {}
    for u in (u1, u2):
        u.update({'PrintLog': False, 'Verbose': False})
        u.pop('LogFile', None)
    a = base_assessment(**copy.deepcopy(u1))
    a.options.demand_offset['PFA'] = 5
    a.options.nondir_multi_dict['ALL'] = 9.0
    a.unit_conversion_factors['ft'] = -1.0
    b = base_assessment(**copy.deepcopy(u2))
    for attr in ('sampling_method', 'list_all_ds', 'demand_offset', 'nondir_multi_dict', 'rho_cost_time', 'eco_scale', 'error_setup'):
        S.ensure(f'{attr} of another assessment', eqtree(getattr(b.options, attr), getattr(ref.options, attr)), getattr(b.options, attr))
    S.ensure('unit factors of another assessment', b.unit_conversion_factors['ft'] == 0.3048)
    # one configuration used for two assessments
    c = copy.deepcopy(u1)
    x, y = base_assessment(**c), base_assessment(**c)
    for attr in ('sampling_method', 'list_all_ds', 'demand_offset', 'nondir_multi_dict', 'rho_cost_time', 'eco_scale', 'error_setup', 'seed'):
        S.ensure(f'{attr} when one configuration is used twice', eqtree(getattr(x.options, attr), getattr(y.options, attr)))
    S.cover('isolated')


@contract('C09', 'DL_calculation configuration', ['pelicun.tools.DL_calculation._parse_config_file'], kind='runtime',
          bound='generated configurations, histories of 3', runs=30, covers=['parsed', 'default outputs', 'user outputs'])
def dl_config(S):
    """settings in the file are kept, gaps filled by the calculation's own defaults, in every call anew"""
    import pathlib
    from pelicun.tools import DL_calculation as dl
    full0, reg0, pbe0 = (copy.deepcopy(x) for x in (dl.full_out_config, dl.regional_out_config, dl.pbe_settings))
    g = S.rng
    for step in range(3):
        opt = user_tree(S, base.load_default_options())
        opt.pop('LogFile', None)
        opt.pop('UnitsFile', None)
        opt.setdefault('Sampling', {})['SampleSize'] = int(g.integers(10, 99))
        cfg = {'GeneralInformation': {'units': {'length': 'in', 'force': 'kip', 'time': 'sec'}},
               'DL': {'Demands': {'DemandFilePath': 'x.csv'},
                      'Asset': {'ComponentAssignmentFile': 'c.csv', 'NumberOfStories': str(int(g.integers(1, 9)))},
                      'Damage': {'DamageProcess': 'None'}, 'Losses': {'Repair': {'ConsequenceDatabase': 'None', 'MapApproach': 'Automatic'}},
                      'Options': opt}}
        outs = None
        if g.random() < 0.5:
            outs = {'Demand': {'Sample': True}, 'Damage': {'Sample': bool(g.integers(2))}}
            if g.random() < 0.5:
                outs['Format'] = {'CSV': bool(g.integers(2)), 'JSON': True}
            if g.random() < 0.5:
                outs['Settings'] = {'CondenseDS': bool(g.integers(2))}
            cfg['DL']['Outputs'] = outs
        fmt = [None, ['csv'], ['json'], ['csv', 'json']][int(g.integers(4))]
        S.drawn[f'config{step}'] = [cfg, fmt]
        with tempdir() as d, quiet():
            p = pathlib.Path(d) / 'config.json'
            p.write_text(json.dumps(cfg))
            r = S.call(dl._parse_config_file, p, pathlib.Path(d), None, 'x.csv', 10, fmt, None, coupled_edp=False, detailed_results=True)
        S.no_raise('valid configuration', r)
        S.cover('parsed')
        want = copy.deepcopy(cfg)['DL']
        want['Asset']['NumberOfStories'] = int(want['Asset']['NumberOfStories'])
        o = want['Options']
        o.setdefault('LogFile', 'pelicun_log.txt')
        for k in ('Verbose', 'ListAllDamageStates'):
            o.setdefault(k, True)
        if outs is None:
            want['Outputs'] = copy.deepcopy(full0)
            S.cover('default outputs')
        else:
            S.cover('user outputs')
        want['Outputs'].setdefault('Format', {'CSV': True, 'JSON': False})
        if fmt is not None:
            want['Outputs']['Format'] = {'CSV': 'csv' in fmt, 'JSON': 'json' in fmt}
        want['Outputs'].setdefault('Settings', copy.deepcopy(pbe0))
        S.ensure('user settings kept, gaps filled', eqtree(r['DL'], want), f'{r["DL"]} != {want}')
        r['DL']['Outputs']['Format']['CSV'] = 'changed'
        r['DL']['Outputs']['Settings']['x'] = 1
        r['DL']['Outputs']['Demand']['Sample'] = 'changed'
        S.ensure('stored defaults unchanged', eqtree(dl.full_out_config, full0) and eqtree(dl.regional_out_config, reg0) and eqtree(dl.pbe_settings, pbe0))
