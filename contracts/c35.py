"""C35 a calculation follows its configuration file"""
import contextlib
import json
import os
import warnings
from pathlib import Path
import numpy as np
import pandas as pd
from pelicun import assessment
from pyvc.contract import contract, Raised
from contracts.util import *
from contracts import c34

T = 'pelicun.tools.DL_calculation.'
OPTIONS = {'Seed': [1, 0, 415], 'Verbose': [False, True], 'PrintLog': [False, True], 'LogShowMS': [True, False], 'LogFile': ['x.log'], 'ListAllDamageStates': [False, True], 'DemandOffset': [{'PFA': 0, 'PFV': -1}],
           'NonDirectionalMultipliers': [{'ALL': 1.0}, {'PFA': 1.3}], 'EconomiesOfScale': [{'AcrossFloors': False, 'AcrossDamageStates': True}], 'RepairCostAndTimeCorrelation': [0, 0.7]}


def maybe(r, p=0.5):
    return bool(r.random() < p)


def configuration(S, files=True):
    """a random valid configuration"""
    r = S.rng
    pick = lambda x: x[int(r.integers(len(x)))]
    dist = lambda u: {'Unit': u, 'Median': pick([0, 0.5, 120.0, '33.5']), **({'Distribution': pick(['lognormal', 'normal']), 'Theta_1': pick([0.2, '0.4'])} if maybe(r) else {})}
    dl = {'Demands': {'DemandFilePath': pick(['response.csv', '/tmp/none/d.csv', 'a/b.csv'])}, 'Asset': {}, 'Options': {k: pick(v) for k, v in OPTIONS.items() if maybe(r, 0.4)}}
    D, A = dl['Demands'], dl['Asset']
    size = int(r.integers(1, 500))
    how = pick(['demands', 'demands text', 'options', 'both'])
    if how != 'options':
        D['SampleSize'] = str(size) if how == 'demands text' else size if how == 'demands' else size + 1
    if how in ('options', 'both'):
        dl['Options']['Sampling'] = {'SampleSize': size, **({'SamplingMethod': 'LHS'} if maybe(r) else {})}
    for k, v in {'CoupledDemands': [True, False], 'Calibration': [{'ALL': {'DistributionFamily': 'lognormal'}}], 'CollapseLimits': [{'PID': 0.1}, {'PFA': '2', 'PID': 1}], 'InferResidualDrift': [{'method': 'FEMA P-58', '1': 0.01, '2': '0.02'}],
                 'DemandCloning': [{'PID-1-1': ['PID-1-1', 'PID-1-2']}]}.items():
        if maybe(r):
            D[k] = copy.deepcopy(pick(v))
    A['ComponentAssignmentFile' if files or maybe(r, 0.7) else 'ComponentSampleFile'] = pick(['CMP.csv', 'x/CMP_QNT.csv'])
    for k, v in {'NumberOfStories': [3, '5', 1], 'ComponentDatabase': ['None', 'FEMA P-58', 'Hazus Earthquake - Buildings, FEMA P-58', 'Water x', 'Hazus Earthquake - Water', 'FEMA P-58, Hazus Earthquake - Water'], 'ComponentDatabasePath': ['CustomDLDataFolder/fragility.csv'], 'OccupancyType': ['RES1', 'COM4']}.items():
        if maybe(r):
            A[k] = pick(v)
    config = {'GeneralInformation': {'NumberOfStories': 99, 'units': {'length': pick(['in', 'ft', 'm'])}}, 'DL': dl}
    if maybe(r, 0.8):
        M = dl['Damage'] = {'DamageProcess': pick(['FEMA P-58', 'User Defined', 'None', 'Hazus Hurricane'])}
        if M['DamageProcess'] == 'User Defined':
            M['DamageProcessFilePath'] = 'process.json'
        if maybe(r):
            M['CollapseFragility'] = {'DemandType': pick(['SA_1.13', 'PID']), 'CapacityMedian': pick([0.5, '1.2'])}
            if maybe(r):
                M['CollapseFragility'].update(CapacityDistribution='lognormal', Theta_1=pick([0.3, '0.4']))
        if maybe(r):
            M['IrreparableDamage'] = {'DriftCapacityMedian': pick([0.01, '0.01']), 'DriftCapacityLogStd': 0.3}
        if maybe(r):
            M['ScalingSpecification'] = {'A-1-1': {'ALL': '*1.2'}}
        if maybe(r, 0.8):
            R = {'MapApproach': pick(['Automatic', 'User Defined'])}
            for k, v in {'ConsequenceDatabase': ['FEMA P-58', 'None'], 'ConsequenceDatabasePath': ['c.csv'], 'MapFilePath': ['CustomDLDataFolder/map.csv'], 'CombinationMethod': ['Hazus Hurricane']}.items():
                if maybe(r):
                    R[k] = pick(v)
            for k, u in (('ReplacementCost', 'USD_2011'), ('ReplacementTime', 'day'), ('ReplacementCarbon', 'kg'), ('ReplacementEnergy', 'MJ')):
                if maybe(r):
                    R[k] = dist(u)
            if maybe(r, 0.7):
                R['DecisionVariables'] = {str(k): maybe(r, 0.6) for k in r.permutation(['Cost', 'Time', 'Carbon', 'Energy'])[:int(r.integers(1, 5))]}
            dl['Losses'] = {'BldgRepair' if maybe(r, 0.1) else 'Repair': R}
    outputs = {'Demand': {'Sample': maybe(r), 'Statistics': True}, 'Asset': {'Sample': True}, 'Damage': {'GroupedSample': True}, 'Loss': {'Repair': {'AggregateSample': True}}}
    if 'Damage' not in dl:
        outputs.pop('Damage')
    if 'Losses' not in dl:
        outputs.pop('Loss')
    if 'Losses' not in dl or maybe(r, 0.7):
        dl['Outputs'] = {k: v for k, v in outputs.items() if maybe(r, 0.7)}
        if maybe(r):
            dl['Outputs']['Format'] = {'CSV': maybe(r), 'JSON': maybe(r)}
        if maybe(r):
            dl['Outputs']['Settings'] = {k: maybe(r) for k in ('CondenseDS', 'SimpleIndexInJSON', 'AggregateColocatedComponentResults') if maybe(r)}
        if not dl['Outputs']:
            dl['Outputs'] = {'Demand': outputs['Demand']}
    return config, size


class Recorder:
    """keeps what the calculation is asked for"""
    log = None

    def __init__(self, config_options):
        type(self).log = self
        self.calls = {'options': copy.deepcopy(config_options)}

    def __getattr__(self, name):
        if not name.startswith('calculate_'):
            raise AttributeError(name)

        def f(*a, **k):
            assert not a and name not in self.calls
            self.calls[name] = copy.deepcopy(k)
            return ('aggregate', None)
        return f


def given(d, path, default=None):
    for k in path.split('/'):
        if not isinstance(d, dict) or k not in d:
            return default
        d = d[k]
    return d


@contract('C35', 'settings reach the calculation', [T + 'run_pelicun', T + '_parse_config_file', T + '_parse_decision_variables'], kind='runtime', runs=400, bound='random configurations over all settings; the steps of the calculation recorded',
          covers=['damage', 'losses', 'collapse', 'default outputs', 'output format', 'no damage', 'legacy losses', 'component sample'])
def settings(S):
    from pelicun.tools import DL_calculation as dl
    r = S.rng
    config, size = configuration(S, False)
    S.drawn['config'] = config
    fmt = [None, ['csv'], ['json'], ['csv', 'json'], []][int(r.integers(5))]
    custom = None if maybe(r) else 'models'
    saved, done = {}, {}
    keep = copy.deepcopy((dl.full_out_config, dl.regional_out_config, dl.pbe_settings, assessment.default_damage_processes))
    with tempdir() as d, contextlib.ExitStack() as st, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = os.path.join(d, 'config.json')
        Path(f).write_text(json.dumps(config))
        st.enter_context(swap(dl, 'DLCalculationAssessment', Recorder))
        st.enter_context(swap(dl, '_result_summary', lambda a, agg: (done.update(aggregate=agg), (None, None))[1]))
        for x in ('_demand_save', '_asset_save', '_damage_save', '_loss_save'):
            st.enter_context(swap(dl, x, lambda oc, a, p, out, *rest, _x=x, **k: saved.update({_x: (copy.deepcopy(oc), str(p), rest, k)})))
        for x in ('_create_json_files_if_requested', '_remove_csv_files_if_not_requested'):
            st.enter_context(swap(dl, x, lambda c, out, p, _x=x: done.update({_x: copy.deepcopy(given(c, 'DL/Outputs'))})))
        Recorder.log = None
        out = os.path.join(d, 'new', 'results') if maybe(r) else None
        res = S.call(dl.run_pelicun, f, 'other.csv', out, 7777, None, custom, fmt, detailed_results=maybe(r), coupled_edp=maybe(r))
        S.no_raise('calculated', res)
        S.ensure('configuration file kept', json.loads(Path(f).read_text()) == config)
        S.ensure('results folder', out is None or os.path.isdir(out))
        where = str(Path(out or d).resolve())
    S.ensure('templates kept', repr(keep) == repr((dl.full_out_config, dl.regional_out_config, dl.pbe_settings, assessment.default_damage_processes)))
    C = Recorder.log.calls
    g = lambda p, default=None: given(config, 'DL/' + p, default)
    steps = {'options', 'calculate_demand', 'calculate_asset'} | ({'calculate_damage'} if g('Damage') else set()) | ({'calculate_loss'} if g('Losses') else set())
    S.ensure('exactly the configured steps', set(C) == steps, f'{sorted(C)}')
    o = copy.deepcopy(g('Options'))
    for k, v in (('LogFile', 'pelicun_log.txt'), ('Verbose', True), ('ListAllDamageStates', True)):
        o.setdefault(k, v)
    o.setdefault('Sampling', {})['SampleSize'] = size
    S.ensure('options', C['options'] == o, f'{C["options"]} {o}')
    x = C['calculate_demand']
    for k, v in {'collapse_limits': g('Demands/CollapseLimits'), 'length_unit': config['GeneralInformation']['units']['length'], 'demand_calibration': g('Demands/Calibration'), 'sample_size': size,
                 'demand_cloning': g('Demands/DemandCloning'), 'residual_drift_inference': g('Demands/InferResidualDrift'), 'coupled_demands': g('Demands/CoupledDemands', False)}.items():
        S.ensure('demand settings', x.pop(k) == v, f'{k} {v}')
    S.ensure('demand file', str(x.pop('demand_path')) == str(Path(g('Demands/DemandFilePath')).resolve()) and not x)
    x = C['calculate_asset']
    if g('Asset/ComponentSampleFile'):
        S.cover('component sample')
    stories = g('Asset/NumberOfStories')
    for k, v in {'num_stories': None if stories is None else int(stories), 'component_assignment_file': g('Asset/ComponentAssignmentFile'), 'collapse_fragility_demand_type': g('Damage/CollapseFragility/DemandType'), 'component_sample_file': g('Asset/ComponentSampleFile')}.items():
        S.ensure('asset settings', x.pop(k) == v, f'{k} {v}')
    S.ensure('irreparable damage in the asset', bool(x.pop('add_irreparable_damage_columns')) == bool(g('Damage/IrreparableDamage')) and not x)
    if 'calculate_damage' in C:
        S.cover('damage')
        x = C['calculate_damage']
        cf = copy.deepcopy(g('Damage/CollapseFragility'))
        if cf:
            S.cover('collapse')
            if 'CapacityDistribution' not in cf:
                cf.update(CapacityDistribution='deterministic', Theta_1='N/A')
        for k, v in {'length_unit': config['GeneralInformation']['units']['length'], 'component_database': g('Asset/ComponentDatabase'), 'component_database_path': g('Asset/ComponentDatabasePath'), 'collapse_fragility': cf, 'irreparable_damage': g('Damage/IrreparableDamage'),
                     'damage_process_approach': g('Damage/DamageProcess'), 'damage_process_file_path': g('Damage/DamageProcessFilePath'), 'custom_model_dir': custom, 'scaling_specification': g('Damage/ScalingSpecification'),
                     'is_for_water_network_assessment': 'Water' in (g('Asset/ComponentDatabase') or '')}.items():
            S.ensure('damage settings', x.pop(k) == v, f'{k} {v}')
        S.ensure('no other damage settings', not x)
    else:
        S.cover('no damage')
    if 'calculate_loss' in C:
        S.cover('losses')
        if 'BldgRepair' in g('Losses'):
            S.cover('legacy losses')
        R = g('Losses/Repair') or g('Losses/BldgRepair')
        x = C['calculate_loss']
        for k, v in {'loss_map_approach': R['MapApproach'], 'occupancy_type': g('Asset/OccupancyType'), 'consequence_database': R.get('ConsequenceDatabase'), 'consequence_database_path': R.get('ConsequenceDatabasePath'), 'custom_model_dir': custom,
                     'damage_process_approach': g('Damage/DamageProcess'), 'replacement_cost_parameters': R.get('ReplacementCost'), 'replacement_time_parameters': R.get('ReplacementTime'), 'replacement_carbon_parameters': R.get('ReplacementCarbon'),
                     'replacement_energy_parameters': R.get('ReplacementEnergy'), 'loss_map_path': R.get('MapFilePath'), 'replacement_configuration': None, 'loss_combination_method': R.get('CombinationMethod')}.items():
            S.ensure('loss settings', x.pop(k) == v, f'{k} {v}')
        dv = x.pop('decision_variables')
        S.ensure('the decision variables that are switched on', sorted(dv) == sorted(k for k, v in R.get('DecisionVariables', {}).items() if v is True) and not x, f'{dv}')
    S.ensure('losses are summarized', done['aggregate'] == ('aggregate' if 'calculate_loss' in C else None))
    O = copy.deepcopy(g('Outputs'))
    if O is None:
        S.cover('default outputs')
        full = copy.deepcopy(keep[0])
        O = {k: v for k, v in full.items()}
    F = {'CSV': 'csv' in fmt, 'JSON': 'json' in fmt} if fmt is not None else O.get('Format', {'CSV': True, 'JSON': False})
    if fmt is not None:
        S.cover('output format')
    for x in ('_create_json_files_if_requested', '_remove_csv_files_if_not_requested'):
        S.ensure('formats of the results', {k: bool(v) for k, v in done[x]['Format'].items()} == {**{k: False for k in done[x]['Format']}, **F}, f'{done[x]} {F}')
    wanted = {'_demand_save': O.get('Demand'), '_asset_save': O.get('Asset'), '_damage_save': O.get('Damage'), '_loss_save': given(O, 'Loss/Repair')}
    S.ensure('exactly the requested results', set(saved) == {k for k, v in wanted.items() if v}, f'{sorted(saved)} {wanted}')
    for k, (oc, p, rest, kw) in saved.items():
        S.ensure('requested results', oc == wanted[k] and p == where, f'{k} {oc} {wanted[k]} {p} {where}')
        if g('Outputs') is not None and (O.get('Settings') or k == '_demand_save'):
            for name, q in (('aggregate_colocated', 'AggregateColocatedComponentResults'), ('condense_ds', 'CondenseDS')):
                if name in kw:
                    S.ensure('settings of the results', kw[name] == O['Settings'].get(q, False), f'{k} {kw} {O["Settings"]}')
        if k == '_loss_save':
            S.ensure('aggregated losses are saved', rest == ('aggregate',))


@contract('C35', 'incomplete configurations', [T + '_parse_config_file', T + 'run_pelicun'], kind='runtime', runs=150, bound='random configurations with one of 12 mistakes', covers=['refused'])
def refused(S):
    from pelicun.tools import DL_calculation as dl
    r = S.rng
    config, size = configuration(S)
    D = config['DL']
    D.setdefault('Damage', {'DamageProcess': 'FEMA P-58'})
    k = S.case('mistake', ['demands', 'assets', 'size', 'method', 'median', 'distribution', 'drift', 'process file', 'two component files', 'no component file', 'output of damage', 'output of losses', 'text', 'information'])
    if k == 'demands':
        del D['Demands']['DemandFilePath']
        D['Demands'] = {}
        D['Options'].setdefault('Sampling', {})['SampleSize'] = 5
    elif k == 'assets':
        del D['Asset']
    elif k == 'size':
        D['Demands'].pop('SampleSize', None)
        D['Options'].pop('Sampling', None)
    elif k == 'method':
        D['Demands']['InferResidualDrift'] = {'1': 0.1}
    elif k == 'median':
        D['Damage']['CollapseFragility'] = {'DemandType': 'PID', 'CapacityDistribution': 'lognormal', 'Theta_1': 0.3}
    elif k == 'distribution':
        D['Damage']['CollapseFragility'] = {'DemandType': 'PID', 'CapacityMedian': 0.3, 'CapacityDistribution': 'lognormal'}
    elif k == 'drift':
        D['Damage']['IrreparableDamage'] = {'DriftCapacityMedian': 0.1}
    elif k == 'process file':
        D['Damage'].update(DamageProcess='User Defined')
        D['Damage'].pop('DamageProcessFilePath', None)
    elif k == 'two component files':
        D['Asset']['ComponentSampleFile'] = 'x.csv'
    elif k == 'no component file':
        del D['Asset']['ComponentAssignmentFile']
        D['Asset']['NumberOfStories'] = 2
    elif k == 'output of damage':
        del D['Damage']
        D.pop('Losses', None)
        D['Outputs'] = {'Damage': {'Sample': True}}
    elif k == 'output of losses':
        D.pop('Losses', None)
        D['Outputs'] = {'Loss': {'Repair': {'Sample': True}}}
    elif k == 'text':
        D['Demands']['CoupledDemands'] = 'yes'
    else:
        del config['GeneralInformation']
    S.drawn['config'] = config
    Recorder.log = None
    with tempdir() as d, quiet(), swap(dl, 'DLCalculationAssessment', Recorder):
        f = os.path.join(d, 'config.json')
        Path(f).write_text(json.dumps(config))
        (Path(d) / 'DL_summary.csv').write_text('kept')
        res = S.call(dl.run_pelicun, f, None if k == 'demands' else 'other.csv', None, 7777, None, None, None, detailed_results=False, coupled_edp=False)
        S.refused(f'refused: {k}', res, 'PelicunInvalidConfigError')
        S.ensure('nothing is calculated', Recorder.log is None)
        S.ensure('results of earlier calculations kept', (Path(d) / 'DL_summary.csv').exists())
    S.cover('refused')


RESULTS = ['DEM_sample.zip', 'DEM_stats.csv', 'CMP_sample.zip', 'CMP_stats.csv', 'DMG_sample.zip', 'DMG_stats.csv', 'DMG_grp.zip', 'DMG_grp_stats.csv', 'DV_repair_sample.zip', 'DV_repair_stats.csv', 'DV_repair_grp.zip', 'DV_repair_grp_stats.csv',
           'DV_repair_agg.zip', 'DV_repair_agg_stats.csv', 'DL_summary.csv', 'DL_summary_stats.csv']
OTHERS = ['config.json', 'CMP_QNT.csv', 'response.csv', 'summary.csv', 'DL_summary.csv.bak', 'my_DMG_stats.csv', 'DMG_sample.txt', 'pelicun_log.txt', 'stats.csv', 'DMG.json', 'sub']


@contract('C35', 'results of earlier runs', [T + 'run_pelicun', T + '_remove_existing_files', T + '_create_json_files_if_requested', T + '_remove_csv_files_if_not_requested'], kind='runtime', runs=150, bound='all results of earlier runs in all formats, up to 11 other files; the steps of the calculation recorded',
          covers=['results', 'json results', 'other files', 'own folder', 'results of this run'])
def earlier(S):
    from pelicun.tools import DL_calculation as dl
    r = S.rng
    config, size = configuration(S, False)
    config['DL'].setdefault('Outputs', {'Demand': {'Sample': True}})['Format'] = {'CSV': maybe(r), 'JSON': maybe(r)}
    old = [x for x in RESULTS if maybe(r)]
    olds = [Path(x).stem + '.json' for x in RESULTS if maybe(r)]
    others = [x for x in OTHERS if x != 'config.json' and maybe(r)]
    S.drawn.update(existing=old + olds, others=others)
    now = ['DEM_stats.csv', 'DL_summary.csv'] if maybe(r) else []
    before = []

    class Steps(Recorder):
        def __init__(self, config_options):
            before.extend(sorted(os.listdir(where)))
            super().__init__(config_options)

    def write(oc, a, p, out, *rest, **k):
        for x in now[:1]:
            Path(p, x).write_text(',PID-1-1\nUnits,rad\nmean,0.5\n')
            out.append(x)

    def summary(s, t, p, out):
        for x in now[1:]:
            Path(p, x).write_text('#,collapse\n0,1\n')
            out.append(x)

    with tempdir() as d, contextlib.ExitStack() as st, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        own = maybe(r)
        where = os.path.join(d, 'results') if own else d
        os.makedirs(where, exist_ok=True)
        f = os.path.join(d, 'config.json')
        Path(f).write_text(json.dumps(config))
        if own:
            S.cover('own folder')
            others = [x for x in others]
            for x in old:
                Path(d, x).write_text('not in the folder of results')
        for x in old + olds:
            Path(where, x).write_text('old')
        for x in others:
            if x == 'sub':
                os.makedirs(Path(where, x))
                Path(where, x, 'DMG_sample.zip').write_text('kept')
            else:
                Path(where, x).write_text('kept')
        st.enter_context(swap(dl, 'DLCalculationAssessment', Steps))
        st.enter_context(swap(dl, '_result_summary', lambda a, agg: (None, None)))
        st.enter_context(swap(dl, '_summary_save', summary))
        st.enter_context(swap(dl, '_demand_save', write))
        for x in ('_asset_save', '_damage_save', '_loss_save'):
            st.enter_context(swap(dl, x, lambda *a, **k: None))
        Recorder.log = Steps.log = None
        res = S.call(dl.run_pelicun, f, 'other.csv', where if own else None, 5, None, None, None, detailed_results=False, coupled_edp=False)
        S.no_raise('calculated', res)
        after = sorted(os.listdir(where))
        contents = {x: Path(where, x).read_text() if x != 'sub' else Path(where, x, 'DMG_sample.zip').read_text() for x in others if Path(where, x).exists()}
        elsewhere = [x for x in old if own and not Path(d, x).exists()]
    known = set(RESULTS) | {Path(x).stem + '.json' for x in RESULTS}
    S.cover('results' if old else 'none')
    if olds:
        S.cover('json results')
    if others:
        S.cover('other files')
    S.ensure('no results of earlier runs when the calculation starts', not known & set(before), f'{sorted(known & set(before))}')
    F = config['DL']['Outputs']['Format']
    want = set()
    for x in now if config['DL']['Outputs'].get('Demand') else now[1:]:
        if F['CSV'] or x == 'DL_summary.csv':
            want.add(x)
        if F['JSON']:
            want.add(Path(x).stem + '.json')
    if want:
        S.cover('results of this run')
    S.ensure('exactly the results of this run', known & set(after) == want, f'{sorted(known & set(after))} {sorted(want)}')
    S.ensure('other files kept', set(contents) == set(others) and all(x == 'kept' for x in contents.values()), f'{contents}')
    S.ensure('only the folder of results is cleaned', not elsewhere, f'{elsewhere}')
