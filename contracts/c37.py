"""C37 calculations configured by the scripts of the selected methods"""
import contextlib
import json
import os
import sys
import warnings
from pathlib import Path
import numpy as np
import pandas as pd
from pelicun import auto
from pyvc.contract import contract, Raised
from contracts.util import *
from contracts.c35 import Recorder, given, maybe
from contracts.c36 import library, PATHS

METHODS = sorted({v: k for k, v in sorted(PATHS.items())}.values())    # one name per folder
T = 'pelicun.tools.DL_calculation.'
SCRIPT = '''
import json, pathlib
import pandas as pd
def auto_populate(aim):
    here = pathlib.Path(__file__).parent
    with open(here / 'seen.txt', 'a') as f:
        f.write(json.dumps(aim) + chr(10))
    x = json.loads((here / 'give.json').read_text())
    if x['meddle']:
        aim['GeneralInformation']['meddled'] = True
        aim['Applications']['DL']['meddled'] = True
        aim['more'] = 1
    comp = None if x['comp'] is None else pd.DataFrame(x['comp'], index=['Units', 'Location', 'Direction', 'Theta_0', 'Family']).T
    return x['info'], x['dl'], comp
'''


def script(r, names, i, several):
    """what one script gives: (components, DL section, information)"""
    comp = {}
    for k in range(int(r.integers(1, 4))):
        comp[f'{names[i][:3].strip()}.{i}.{k:02d}'] = ['ea', int(r.integers(1, 4)), int(r.integers(0, 3)), float(r.integers(1, 9)) / 4, 'N/A']
    dl = {'Asset': {'ComponentAssignmentFile': 'CMP_QNT.csv', 'ComponentDatabase': names[i] if i < len(names) and maybe(r, 0.8) else 'None', 'NumberOfStories': str(int(r.integers(1, 9)))}, 'Damage': {'DamageProcess': ['None', 'Hazus Earthquake', 'FEMA P-58'][int(r.integers(3))]}}
    if maybe(r):
        dl['Demands'] = {}
    if several or maybe(r, 0.7):
        dl['Losses'] = {'Repair': {'ConsequenceDatabase': names[i] if maybe(r, 0.8) else 'None', 'MapApproach': ['Automatic', 'User Defined'][int(r.integers(2))], 'DecisionVariables': {'Cost': True, 'Time': maybe(r)}}}
    if maybe(r):
        dl['Options'] = {'NonDirectionalMultipliers': {'ALL': 1.0}, **({'Seed': 3} if maybe(r) else {}), **({'Sampling': {'SampleSize': 777}} if maybe(r, 0.2) else {})}
    return comp, dl, {'NumberOfStories': int(dl['Asset']['NumberOfStories']), 'Found': ['x', None, 1.5][int(r.integers(3))]}


@contextlib.contextmanager
def recorded(dl, log):
    Recorder.log = None
    with contextlib.ExitStack() as st:
        st.enter_context(quiet())
        st.enter_context(warnings.catch_warnings())
        warnings.simplefilter('ignore')
        st.enter_context(swap(dl, 'DLCalculationAssessment', Recorder))
        st.enter_context(swap(dl, '_result_summary', lambda a, agg: (None, None)))
        for x in ('_demand_save', '_asset_save', '_damage_save', '_loss_save'):
            st.enter_context(swap(dl, x, lambda oc, a, p, out, *rest, _x=x, **k: log.update({_x: (copy.deepcopy(oc), k)})))
        for x in ('_create_json_files_if_requested', '_remove_csv_files_if_not_requested'):
            st.enter_context(swap(dl, x, lambda c, out, p, _x=x: log.update({_x: {k: bool(v) for k, v in given(c, 'DL/Outputs/Format').items()}})))
        path = list(sys.path)
        try:
            yield
        finally:
            sys.path[:] = path
            for k in [k for k in sys.modules if k.startswith('auto_script_')]:
                sys.modules.pop(k)


@contextlib.contextmanager
def at(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


@contract('C37', 'configured by scripts', [T + 'run_pelicun', T + '_parse_config_file', 'pelicun.auto.auto_populate'], kind='runtime', runs=200, bound='up to 3 methods or a folder of the user, one to three calculations in a row; the steps of the calculation recorded',
          covers=['several methods', 'user models', 'folder in the file', 'options of both', 'options of the user', 'coupled', 'lean', 'detailed', 'outputs', 'no losses', 'again', 'meddle', 'format'])
def scripts(S):
    from pelicun.tools import DL_calculation as dl
    r = S.rng
    templates = copy.deepcopy((dl.full_out_config, dl.regional_out_config, dl.pbe_settings))
    for again in range(S.int('calculations', 1, 3)):
        if again:
            S.cover('again')
        user = maybe(r, 0.3)
        names = ['User-provided Models'] if user else [str(x) for x in r.permutation(METHODS)[:1 + (int(r.integers(1, 3)) if maybe(r, 0.4) else 0)]]
        several = len(names) > 1
        given_by = [script(r, names, i, several) for i in range(len(names))]
        data = {'DL_Method': [', ', ',', ' , '][int(r.integers(3))].join(names)}
        options = None
        if maybe(r):
            options = data['Options'] = {'ListAllDamageStates': maybe(r), 'NonDirectionalMultipliers': {'PFA': 1.2}, **({'Sampling': {'SamplingMethod': 'LHS'}} if maybe(r) else {})}
        flags = {k: maybe(r) for k in ('AIM', 'IM', 'EDP', 'DM', 'DV')} if maybe(r) else None
        config = {'GeneralInformation': {'units': {'length': 'ft'}, 'AIM_id': '7'}, 'Applications': {'DL': {'Application': 'Pelicun3', 'ApplicationData': data}, 'EDP': {}}, **({} if flags is None else {'outputs': flags})}
        size, coupled, detailed = int(r.integers(1, 99)), maybe(r), maybe(r)
        fmt = None if maybe(r) else [['csv'], ['json'], ['csv', 'json'], []][int(r.integers(4))]
        meddle = maybe(r, 0.3)
        log = {}
        with tempdir() as d, at(d):
            own = Path(d) / 'own models'
            own.mkdir()
            files = {(m, f): x for m, g in zip(names, given_by) if not user for f, x in (('pelicun_config.py', SCRIPT), ('give.json', json.dumps({'comp': g[0], 'dl': g[1], 'info': g[2], 'meddle': meddle})))}
            custom = None
            if user:
                S.cover('user models')
                (own / 'pelicun_config.py').write_text(SCRIPT)
                (own / 'give.json').write_text(json.dumps({'comp': given_by[0][0], 'dl': given_by[0][1], 'info': given_by[0][2], 'meddle': meddle}))
                if maybe(r):
                    custom = str(own)
                    if maybe(r):
                        data['custom_model_dir'] = str(Path(d) / 'none')
                else:
                    S.cover('folder in the file')
                    data['custom_model_dir'] = str(own) if maybe(r) else 'own models'
            elif maybe(r, 0.3):
                custom = str(own)
            f = Path(d) / 'AIM.json'
            f.write_text(json.dumps(config))
            out = Path(d) / 'results'
            S.drawn.update(config=config, given=[x[:2] for x in given_by])
            with library(d, files) as root, recorded(dl, log):
                res = S.call(dl.run_pelicun, str(f), 'response file.csv', str(out), [size, str(size)][int(r.integers(2))], None, custom, fmt, coupled_edp=coupled, detailed_results=detailed)
                S.no_raise('calculated', res)
                places = [own] if user else [root / 'resources' / 'DamageAndLossModelLibrary' / PATHS[m] for m in names]
                seen = [[json.loads(x) for x in (p / 'seen.txt').read_text().splitlines()] for p in places]
            S.ensure('configuration file kept', json.loads(f.read_text()) == config)
            table = pd.read_csv(out / 'CMP_QNT.csv', index_col=0, keep_default_na=False, dtype=str)
            extended = json.loads((Path(d) / 'AIM_ap.json').read_text()) if (Path(d) / 'AIM_ap.json').exists() else None
            asset_file = str((out / 'CMP_QNT.csv').resolve())
            demand_file = str(Path('response file.csv').resolve())
        for x in seen:
            S.ensure('every script runs once', len(x) == 1, f'{len(x)}')
            x = x[0]
            S.ensure('scripts see the demands', given(x, 'DL/Demands/DemandFilePath') == 'response file.csv' and str(given(x, 'DL/Demands/SampleSize')) == str(size), f'{x}')
            x.pop('DL')
            S.ensure('scripts see the configuration', x == config, f'{x} {config}')
        if meddle:
            S.cover('meddle')
        # components of all methods, in order
        rows = [[k, *[str(v) for v in c]] for g in given_by for k, c in g[0].items()]
        got = [[k, *row] for k, row in zip(table.index, table[['Units', 'Location', 'Direction', 'Theta_0', 'Family']].to_numpy().tolist())]
        S.ensure('components of all methods', got == rows, f'{got} {rows}')
        first = given_by[0][1]
        C = Recorder.log.calls
        losses = 'Losses' in first
        if not losses:
            S.cover('no losses')
        S.ensure('exactly the steps', set(C) == {'options', 'calculate_demand', 'calculate_asset', 'calculate_damage'} | ({'calculate_loss'} if losses else set()), f'{sorted(C)}')
        x = C['calculate_demand']
        n = given(first, 'Options/Sampling/SampleSize', size)
        S.ensure('demands', str(x['demand_path']) == demand_file and x['sample_size'] == n and x['length_unit'] == 'ft', f'{x}')
        S.cover('coupled') if coupled else None
        S.ensure('coupled demands', bool(x['coupled_demands']) == coupled and x['demand_calibration'] == (None if coupled else {'ALL': {'DistributionFamily': 'lognormal'}}), f'{x}')
        x = C['calculate_asset']
        S.ensure('components of the scripts', x['component_assignment_file'] == asset_file and x['component_sample_file'] is None and x['num_stories'] == int(first['Asset']['NumberOfStories']), f'{x}')
        x = C['calculate_damage']
        split = lambda t: [y.strip() for y in t.split(',')]
        S.ensure('fragilities of all methods', split(x['component_database']) == [g[1]['Asset']['ComponentDatabase'] for g in given_by], f'{x}')
        S.ensure('damage of the script', x['damage_process_approach'] == first['Damage']['DamageProcess'] and x['custom_model_dir'] == custom, f'{x}')
        if losses:
            x = C['calculate_loss']
            S.ensure('consequences of all methods', split(x['consequence_database']) == [g[1]['Losses']['Repair']['ConsequenceDatabase'] for g in given_by], f'{x}')
            S.ensure('losses of the script', x['loss_map_approach'] == first['Losses']['Repair']['MapApproach'] and x['loss_combination_method'] == ('Hazus Hurricane' if several else None) and x['custom_model_dir'] == custom
                     and sorted(x['decision_variables']) == sorted(k for k, v in first['Losses']['Repair']['DecisionVariables'].items() if v), f'{x}')
        if several:
            S.cover('several methods')
        # options: those of the script, completed by those of the user
        want = copy.deepcopy(first.get('Options', {}))
        mine = copy.deepcopy(options or {})
        if options:
            S.cover('options of both' if 'Options' in first else 'options of the user')
        for k, v in mine.items():
            if isinstance(v, dict):
                want[k] = {**v, **want.get(k, {})}
            else:
                want.setdefault(k, v)
        for k, v in (('LogFile', 'pelicun_log.txt'), ('Verbose', True), ('ListAllDamageStates', True)):
            want.setdefault(k, v)
        want.setdefault('Sampling', {})['SampleSize'] = n
        S.ensure('options', C['options'] == want, f'{C["options"]} {want}')
        # outputs
        O = copy.deepcopy(templates[0] if detailed else templates[1])
        O['Settings'] = {**O.get('Settings', {}), **templates[1]['Settings']}
        S.cover('detailed' if detailed else 'lean')
        if not losses:
            O['Loss'] = {}
        if flags is not None:
            S.cover('outputs')
            if not flags['IM'] and not flags['EDP']:
                O['Demand'] = {}
            if not flags['DM']:
                O['Damage'] = {}
            if not flags['DV']:
                O['Loss'] = {}
        wanted = {'_demand_save': O['Demand'], '_asset_save': O['Asset'], '_damage_save': O['Damage'], '_loss_save': O['Loss'].get('Repair')}
        got = {k: v[0] for k, v in log.items() if k in wanted}
        S.ensure('exactly the requested results', got == {k: v for k, v in wanted.items() if v}, f'{got} {wanted}')
        for k, v in log.items():
            if k in wanted:
                for a, b in v[1].items():
                    S.ensure('settings of the results', b == O['Settings'][{'aggregate_colocated': 'AggregateColocatedComponentResults', 'condense_ds': 'CondenseDS'}[a]], f'{k} {v}')
        F = O['Format'] if fmt is None else {'CSV': 'csv' in fmt, 'JSON': 'json' in fmt}
        if fmt is not None:
            S.cover('format')
        S.ensure('formats of the results', log['_create_json_files_if_requested'] == F == log['_remove_csv_files_if_not_requested'], f'{log} {F}')
        if extended is not None:
            S.ensure('extended configuration', extended['GeneralInformation'] == {**config['GeneralInformation'], **({'meddled': True} if meddle else {}), **given_by[0][2]}, f'{extended["GeneralInformation"]}')
        S.ensure('templates kept', repr(templates) == repr((dl.full_out_config, dl.regional_out_config, dl.pbe_settings)))


@contract('C37', 'calculations that cannot be configured', [T + 'run_pelicun', T + '_parse_config_file', 'pelicun.auto.auto_populate'], kind='runtime', runs=60, bound='six situations', covers=['N/A', 'refused'])
def cannot(S):
    from pelicun.tools import DL_calculation as dl
    r = S.rng
    names = [str(x) for x in r.permutation(METHODS)[:2]]
    k = S.case('situation', ['N/A', 'nothing', 'no script', 'second script missing', 'unknown method', 'no folder', 'no script in the folder'])
    comp, section, info = script(r, names, 0, False)
    section = {'N/A': 'N/A', 'nothing': None}.get(k, section)
    data = {'DL_Method': names[0]}
    custom = None
    if k == 'second script missing':
        data['DL_Method'] = ', '.join(names[::1 if maybe(r) else -1])
    elif k == 'unknown method':
        data['DL_Method'] = 'FEMA P-59'
    elif k in ('no folder', 'no script in the folder'):
        data['DL_Method'] = 'User-provided Models'
    log = {}
    with tempdir() as d, at(d):
        if k == 'no folder':
            custom = str(Path(d) / 'none')
        elif k == 'no script in the folder':
            custom = d
        files = {} if k == 'no script' else {(names[0], 'pelicun_config.py'): SCRIPT, (names[0], 'give.json'): json.dumps({'comp': comp if maybe(r) or section is not None else None, 'dl': section, 'info': info, 'meddle': False})}
        f = Path(d) / 'AIM.json'
        f.write_text(json.dumps({'GeneralInformation': {'units': {'length': 'ft'}}, 'Applications': {'DL': {'ApplicationData': data}}}))
        (Path(d) / 'DL_summary.csv').write_text('kept')
        with library(d, files), recorded(dl, log):
            res = S.call(dl.run_pelicun, str(f), 'r.csv', d, 5, None, custom, None, coupled_edp=False, detailed_results=True)
        S.ensure('earlier results kept', (Path(d) / 'DL_summary.csv').read_text() == 'kept')
    S.ensure('nothing is calculated', Recorder.log is None and not log)
    if k == 'N/A':
        S.cover('N/A')
        S.no_raise('skipped', res)
    else:
        S.cover('refused')
        S.refused('refused', res, 'PelicunInvalidConfigError', 'AssertionError', 'ValueError', 'FileNotFoundError', 'KeyError')


@contract('C37', 'configuration script', ['pelicun.auto.auto_populate'], kind='runtime', runs=150, bound='random configurations, two scripts in a row', covers=['configuration without information', 'legacy', 'two scripts'])
def populate(S):
    r = S.rng
    names = [str(x) for x in r.permutation(METHODS)[:2]]
    given_by = [script(r, names, i, False) for i in range(2)]
    config = {'GeneralInformation': {'units': {'length': 'ft'}, 'NumberOfStories': 99, 'deep': {'a': [1, {'b': 2}]}}, 'Applications': {'DL': {}}, **({'DL': {'Demands': {'x': 1}}} if maybe(r) else {})}
    if maybe(r, 0.2):
        S.cover('configuration without information')
        config.pop('GeneralInformation')
    keep = copy.deepcopy(config)
    with tempdir() as d:
        for i in range(2):
            (Path(d) / str(i)).mkdir()
            (Path(d) / str(i) / 'rules.py').write_text(SCRIPT)
            (Path(d) / str(i) / 'give.json').write_text(json.dumps({'comp': given_by[i][0], 'dl': given_by[i][1], 'info': given_by[i][2], 'meddle': maybe(r)}))
        with recorded(__import__('pelicun.tools.DL_calculation', fromlist=['x']), {}):
            order = [0, 1] if maybe(r) else [1, 0] if maybe(r) else [0, 0, 1]
            for j, i in enumerate(order):
                res = S.call(auto.auto_populate, config, Path(d) / str(i) / 'rules.py', j)
                S.ensure('configuration kept', config == keep, f'{config} {keep}')
                if 'GeneralInformation' not in config:
                    S.refused('no asset information', res, 'ValueError')
                    continue
                S.cover('two scripts')
                S.no_raise('populated', res)
                new, comp = res
                S.ensure('components of the script', {str(k): [str(x) for x in v] for k, v in comp.T.to_dict('list').items()} == {k: [str(x) for x in v] for k, v in given_by[i][0].items()}, f'{comp}')
                S.ensure('damage and loss section of the script', new['DL'] == given_by[i][1], f'{new["DL"]}')
                gi = {k: v for k, v in new['GeneralInformation'].items() if k != 'meddled'}
                S.ensure('asset information completed', gi == {**keep['GeneralInformation'], **given_by[i][2]}, f'{gi}')
                new['GeneralInformation']['deep']['a'][1]['b'] = 3
                S.ensure('configuration kept', config == keep, f'{config} {keep}')
        # default scripts
        if maybe(r, 0.3) and 'GeneralInformation' in config:
            S.cover('legacy')
            root = Path(d) / 'package'
            (root / 'resources' / 'auto').mkdir(parents=True)
            (root / 'resources' / 'auto' / 'rules.py').write_text(SCRIPT)
            (root / 'resources' / 'auto' / 'give.json').write_text(json.dumps({'comp': given_by[1][0], 'dl': given_by[1][1], 'info': given_by[1][2], 'meddle': False}))
            from pelicun import base
            with at(d), swap(base, 'pelicun_path', root), recorded(__import__('pelicun.tools.DL_calculation', fromlist=['x']), {}):
                # the documented form is relative, `PelicunDefault/XY`, and resolves inside the package
                os.chdir('/')
                res = S.call(auto.auto_populate, config, Path('PelicunDefault/rules.py'), 9)
            S.no_raise('default script', res)
            S.ensure('default script', res[0]['DL'] == given_by[1][1])
