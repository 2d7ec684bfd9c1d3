"""C36 references to the default model library resolve to the models they name"""
import contextlib
import json
import os
import warnings
from pathlib import Path
import numpy as np
import pandas as pd
from pelicun import assessment, base, file_io
from pyvc.contract import contract, Raised
from contracts.util import *
from contracts import gen

DL = 'pelicun.assessment.DLCalculationAssessment.'
SUB = 'pelicun.file_io.substitute_default_path'
LEGACY = {'damage_DB_FEMA_P58_2nd': 'FEMA P-58', 'damage_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings', 'damage_DB_Hazus_EQ_story': 'Hazus Earthquake - Stories', 'damage_DB_Hazus_EQ_trnsp': 'Hazus Earthquake - Transportation',
          'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Potable Water', 'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Electric Power', 'damage_DB_SimCenter_Hazus_HU_bldg': 'Hazus Hurricane Wind', 'loss_repair_DB_FEMA_P58_2nd': 'FEMA P-58',
          'loss_repair_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings', 'loss_repair_DB_Hazus_EQ_story': 'Hazus Earthquake - Stories', 'loss_repair_DB_Hazus_EQ_trnsp': 'Hazus Earthquake - Transportation', 'loss_repair_DB_SimCenter_Hazus_HU_bldg': 'Hazus Hurricane Wind'}
REAL = Path(base.pelicun_path)
PATHS = json.loads((REAL / 'resources' / 'dlml_resource_paths.json').read_text())


def folder(root, method):
    return Path(root) / 'resources' / 'DamageAndLossModelLibrary' / PATHS[method]


@contextlib.contextmanager
def library(d, files):
    """a model library {(method, file name): text or table} in a package folder of its own"""
    root = Path(d) / 'package'
    (root / 'resources' / 'DamageAndLossModelLibrary').mkdir(parents=True)
    (root / 'settings').symlink_to(REAL / 'settings')
    (root / 'resources' / 'dlml_resource_paths.json').write_text((REAL / 'resources' / 'dlml_resource_paths.json').read_text())
    for (m, f), x in files.items():
        p = folder(root, m)
        p.mkdir(parents=True, exist_ok=True)
        if isinstance(x, str):
            (p / f).write_text(x)
        else:
            x.to_csv(p / f, index_label='ID')
    with swap(base, 'pelicun_path', root):
        yield root


@contract('C36', 'default paths', [SUB], kind='runtime', runs=300, bound='up to 8 references in any mix', covers=['method', 'legacy', 'other', 'table', 'unknown method', 'unknown name'])
def paths(S):
    r = S.rng
    pick = lambda x: x[int(r.integers(len(x)))]
    refs, want, bad = [], [], False
    for i in range(S.int('references', 0, 8)):
        kind = pick(['method', 'method', 'legacy', 'legacy', 'other', 'table', 'unknown'])
        if kind == 'method':
            m, f = pick(sorted(PATHS)), pick(['fragility.csv', 'consequence_repair.csv', 'loss_repair.csv', 'fragility.json', 'pelicun_config.py', 'combine_wind_flood.csv', 'a.b.txt'])
            refs.append(f'PelicunDefault/{m}/{f}')
            want.append(str(folder(REAL, m) / f))
        elif kind == 'legacy':
            k, ext = pick(sorted(LEGACY)), pick(['csv', 'json'])
            old = k
            if r.random() < 0.3:
                old = k.replace('damage_DB', 'fragility_DB').replace('loss_repair_DB', 'bldg_repair_DB')
            refs.append(f'PelicunDefault/{old}.{ext}')
            want.append(str(folder(REAL, LEGACY[k]) / f'{"fragility" if k.startswith("damage") else "consequence_repair"}.{ext}'))
        elif kind == 'other':
            refs.append(pick(['x.csv', '/a/b/FEMA P-58/fragility.csv', 'Default/FEMA P-58/fragility.csv', '']))
            want.append(refs[-1])
        elif kind == 'table':
            refs.append(pd.DataFrame({'a': [1.0]}))
            want.append(refs[-1])
        elif r.random() < 0.15:
            x = pick(['PelicunDefault/FEMA P-59/fragility.csv', 'PelicunDefault/fragility.csv', 'PelicunDefault/damage_DB_unknown.csv', 'PelicunDefault/loss_repair_DB_FEMA_P58.csv'])
            refs.append(x)
            bad = True
            S.cover('unknown method' if x.count('/') == 2 else 'unknown name')
            continue
        else:
            continue
        S.cover(kind)
    keep = list(refs)
    res = S.call(file_io.substitute_default_path, refs)
    S.ensure('references kept', len(refs) == len(keep) and all(x is y for x, y in zip(refs, keep)))
    if bad:
        S.refused('unknown models are refused', res, 'KeyError')
        return
    S.no_raise('resolved', res)
    S.ensure('the file of the named method, everything else as it is', len(res) == len(want) and all(x is y if isinstance(y, pd.DataFrame) else isinstance(x, str) and x == y for x, y in zip(res, want)), f'{res} {want}')


FILES = ['fragility.csv', 'consequence_repair.csv', 'loss_repair.csv', 'fragility.json', 'consequence_repair.json', 'pelicun_config.py', 'a.b.txt']
UNKNOWN = ['PelicunDefault/FEMA P-59/fragility.csv', 'PelicunDefault/fragility.csv', 'PelicunDefault/damage_DB_unknown.csv', 'PelicunDefault/loss_repair_DB_FEMA_P58.csv', 'PelicunDefault/fema p-58/fragility.csv']


@contract('C36', 'every reference', [SUB], kind='bounded', modules=[file_io], runs=60, bound='every method of the library with 7 file names, every former database name with both extensions and prefixes, other references and unknown names; alone and after another reference (enumerated)',
          covers=['method', 'legacy', 'former prefix', 'other', 'refused', 'after another'])
def every(S):
    kind = S.case('kind', ['method', 'legacy', 'former prefix', 'other', 'refused'])
    S.cover(kind)
    if kind == 'method':
        m, f = S.case('method', sorted(PATHS)), S.case('file', FILES)
        ref, want = f'PelicunDefault/{m}/{f}', str(folder(REAL, m) / f)
    elif kind in ('legacy', 'former prefix'):
        k, ext = S.case('name', sorted(LEGACY)), S.case('extension', ['csv', 'json'])
        old = k if kind == 'legacy' else k.replace('damage_DB', 'fragility_DB').replace('loss_repair_DB', 'bldg_repair_DB')
        ref, want = f'PelicunDefault/{old}.{ext}', str(folder(REAL, LEGACY[k]) / f'{"fragility" if k.startswith("damage") else "consequence_repair"}.{ext}')
    elif kind == 'other':
        ref = want = S.case('text', ['x.csv', '/a/b/FEMA P-58/fragility.csv', 'Default/FEMA P-58/fragility.csv', ''])
    else:
        ref, want = S.case('unknown', UNKNOWN), None
    refs, wants = [ref], [want]
    if S.case('after another', [False, True]):
        S.cover('after another')
        refs, wants = ['PelicunDefault/FEMA P-58/fragility.csv', ref], [str(folder(REAL, 'FEMA P-58') / 'fragility.csv'), want]
    keep = list(refs)
    res = S.call(file_io.substitute_default_path, refs)
    S.ensure('references kept', refs == keep)
    if kind == 'refused':
        S.refused('unknown models are refused', res, 'KeyError')
        return
    S.no_raise('resolved', res)
    S.ensure('the file of the named method, everything else as it is', [str(x) for x in res] == wants, f'{res} {wants}')


@contract('C36', 'default data', ['pelicun.assessment.AssessmentBase.get_default_data', 'pelicun.assessment.AssessmentBase.get_default_metadata'], kind='runtime', runs=60, bound='up to 4 methods with tables and metadata', covers=['named', 'legacy'])
def data(S):
    r = S.rng
    pick = lambda x: x[int(r.integers(len(x)))]
    ms = sorted({pick(sorted(set(LEGACY.values()))) for _ in range(S.int('methods', 1, 4))})
    ms = [m for m in ms if sum(PATHS[m] == PATHS[x] for x in ms) == 1]
    files, vals = {}, {}
    for m in ms:
        for t in ('fragility', 'consequence_repair'):
            vals[m, t] = float(r.uniform(0, 10))
            files[m, t + '.csv'] = pd.DataFrame({'Incomplete': [0], 'LS1-Theta_0': [vals[m, t]]}, index=['c' if t == 'fragility' else 'c-Cost'])
            files[m, t + '.json'] = json.dumps({'method': m, 'type': t})
    a = full_assessment()
    with tempdir() as d, library(d, files), quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for m in ms:
            for t in ('fragility', 'consequence_repair'):
                names = [(m, t)] + [(k, None) for k, x in LEGACY.items() if x == m and k.startswith('damage') == (t == 'fragility')]
                for nm in names:
                    S.cover('legacy' if nm[1] is None else 'named')
                    args = nm if nm[1] else nm[:1]
                    x = S.call(a.get_default_data, *args)
                    S.no_raise('loaded', x)
                    S.ensure('table of the named method', x.shape == (1, 2) and np.isclose(float(x['LS1', 'Theta_0'].iloc[0]), vals[m, t], rtol=1e-12), f'{nm} {x}')
                    x = S.call(a.get_default_metadata, *args)
                    S.no_raise('loaded', x)
                    S.ensure('metadata of the named method', x == {'method': m, 'type': t}, f'{nm} {x}')


POOL = ['FEMA P-58', 'Hazus Earthquake - Stories', 'Hazus Earthquake - Transportation', 'Hazus Earthquake - Buildings', 'SimCenter Wind Component Library']
CSV = {v: k for k, v in LEGACY.items()}


def fragility(rows):
    t = pd.DataFrame.from_dict({c: {'Incomplete': 0, 'Demand-Type': 'Peak Interstory Drift Ratio', 'Demand-Unit': 'unitless', 'Demand-Offset': 0, 'Demand-Directional': 1, 'LS1-Family': np.nan, 'LS1-Theta_0': x, 'LS1-Theta_1': np.nan, 'LS1-DamageStateWeights': np.nan} for c, x in rows.items()}, orient='index')
    return t


def consequence(rows):
    return pd.DataFrame.from_dict({f'{c}-Cost': {'Incomplete': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': 'USD_2011', 'DS1-Theta_0': x} for c, x in rows.items()}, orient='index')


def functions(rows):
    return pd.DataFrame.from_dict({f'{c}-Cost': {'Incomplete': 0, 'Demand-Type': 'Peak Interstory Drift Ratio', 'Demand-Unit': 'unitless', 'Demand-Offset': 0, 'Demand-Directional': 1, 'DV-Unit': 'USD_2011', 'LossFunction-Theta_0': f'{x},{x}|0.0,10.0', 'LossFunction-Family': np.nan,
                                                 'LossFunction-Theta_1': np.nan} for c, x in rows.items()}, orient='index')


@contract('C36', 'databases of a calculation', [DL + 'calculate_damage', DL + 'calculate_loss', DL + 'load_consequence_info', SUB], kind='runtime', runs=120, bound='up to 3 library methods and a custom database, up to 4 components',
          covers=['several methods', 'custom', 'custom folder', 'legacy name', 'loss functions', 'overlap', 'no database', 'absent file'])
def databases(S):
    r = S.rng
    pick = lambda x: x[int(r.integers(len(x)))]
    cmps = [f'c.{i}' for i in range(S.int('components', 1, 4))]
    n = S.int('n', 1, 5)
    num = iter(0.001 * (1 + int(x)) for x in r.permutation(40))
    files = {('FEMA P-58', 'fragility.csv'): fragility({'unused': 1.0})}

    def sources(kind, make):
        """methods to list, custom file, and the source that governs each component"""
        ms = [POOL[int(i)] for i in r.permutation(len(POOL))[:S.int('methods ' + kind, 0, 3)]]
        given = []
        for m in ms:
            rows = {c: next(num) for c in cmps if r.random() < 0.6}
            rows['unused'] = 1.0
            lf = kind == 'loss' and r.random() < 0.35
            if r.random() < 0.1 and m != 'FEMA P-58':
                S.cover('absent file')
                continue
            if lf:
                S.cover('loss functions')
            files[m, 'fragility.csv' if kind == 'damage' else 'loss_repair.csv' if lf else 'consequence_repair.csv'] = (functions if lf else make)(rows)
            given.append((rows, lf))
        rows = {c: next(num) for c in cmps if r.random() < 0.3 or not any(c in x for x, _ in given)}
        custom = None
        if rows or r.random() < 0.3:
            lf = kind == 'loss' and r.random() < 0.3
            custom = (functions if lf else make)({**rows, 'spare': 1.0})
            given.append((rows, lf))
            S.cover('custom')
        if len(ms) > 1:
            S.cover('several methods')
        if not ms:
            S.cover('no database')
        want = {}
        for x, lf in given:
            for c in x:
                if c in want and c in cmps:
                    S.cover('overlap')
                want[c] = (x[c], lf)
        names = []
        for m in ms:
            t = 'consequence_repair.csv' if kind == 'loss' else 'fragility.csv'
            old = CSV.get(m) if kind == 'loss' else {v: k for k, v in LEGACY.items() if k.startswith('damage')}.get(m)
            if old and (m, t) in files and r.random() < 0.3:
                S.cover('legacy name')
                names.append(old + '.csv')
            else:
                names.append(m)
        text = ('None' if r.random() < 0.5 else None) if not names else pick([', ', ',']).join(names)
        if names and r.random() < 0.2:
            text += ', None'
        return text, custom, {c: x for c, x in want.items() if c in cmps}

    db, own, want = sources('damage', fragility)
    ldb, lown, lwant = sources('loss', consequence)
    q = {c: float(r.uniform(1, 9)) for c in cmps}
    S.drawn.update(damage=db, loss=ldb, want=want, want_loss=lwant)
    with tempdir() as d, library(d, files), quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = assessment.DLCalculationAssessment({'Verbose': False, 'PrintLog': False, 'LogFile': None, 'Seed': S.int('rng', 1, 10 ** 6)})
        a.stories = 1
        a.demand.load_sample(pd.DataFrame({'PID-1-1': [*[0.5] * n, 'unitless'], 'ONE-0-1': [*[1.0] * n, 'unitless']}, index=[*map(str, range(n)), 'Units'], dtype=object))
        marg = pd.DataFrame({'Units': 'ea', 'Location': '1', 'Direction': '1', 'Theta_0': list(q.values())}, index=list(q))
        marg.loc['collapse'] = ['ea', '0', '1', 1.0]
        a.asset.load_cmp_model({'marginals': marg})
        a.asset.generate_cmp_sample(n)
        folders = {}
        for k, x in (('damage', own), ('loss', lown)):
            folders[k] = None
            if x is not None:
                x.to_csv(os.path.join(d, k + '.csv'), index_label='ID')
                folders[k] = os.path.join(d, k + '.csv')
                if r.random() < 0.5:
                    S.cover('custom folder')
                    folders[k] = f'CustomDLDataFolder/{k}.csv'
        with gen.record() as rec:
            res = S.call(a.calculate_damage, 'm', db, folders['damage'], None, None, 'None', None, d)
        S.no_raise('damage', res)
        cap = {k[0]: x for k, x in rec.cap.items()}
        for c in cmps:
            S.ensure('fragility of the governing database', c in cap and bool(np.allclose(cap[c], want[c][0], rtol=1e-9)), f'{c} {cap.get(c)} {want[c]}')
        res = S.call(a.calculate_loss, 'Automatic', None, ldb, folders['loss'], d, 'None', None, None, None, None, None, ('Cost',))
        S.no_raise('loss', res)
    L = {}
    for m, i in ((a.loss.ds_model, 2), (a.loss.lf_model, 2)):
        if m.sample is not None:
            for x in m.sample.columns:
                assert x[2] not in L
                L[x[2]] = m.sample[x].to_numpy(dtype=float)
    for c in cmps:
        S.ensure('consequence of the governing database', c in L and bool(np.allclose(L[c], q[c] * lwant[c][0], rtol=1e-9)), f'{c} {L} {lwant[c]} {q[c]}')
    S.ensure('nothing else', set(L) == set(cmps), f'{sorted(L)}')
    x = res[0]
    S.ensure('total of all components', bool(np.allclose(x.to_numpy(dtype=float).reshape(n, -1)[:, 0], sum(q[c] * lwant[c][0] for c in cmps), rtol=1e-9)), f'{x}')


@contract('C36', 'wind and flood', [DL + 'calculate_loss', SUB], kind='runtime', runs=40, bound='one wind and one flood component, combination tables of 2 to 4 rows, up to 8 realizations', covers=['combined', 'not combined'])
def wind_flood(S):
    from contracts.c22 import multilinear, combination
    r = S.rng
    n = S.int('n', 2, 8)
    axes, table = combination(S, 2, 1.0)
    files = {('FEMA P-58', 'fragility.csv'): fragility({'unused': 1.0}), ('Hazus Hurricane Wind', 'combine_wind_flood.csv'): '\n'.join(','.join(repr(float(x)) for x in row) for row in table) + '\n'}
    wind, flood = [('W.SF.1', 'F.1'), ('a', 'b'), ('z', 'y')][int(r.integers(3))]
    other = bool(r.random() < 0.5)
    how = [None, 'Hazus Hurricane'][int(r.random() < 0.7)]
    d1, d2, ratio = r.uniform(0, 1, n), r.uniform(0, 1, n), {c: float(r.uniform(0.3, 1.0)) for c in (wind, flood, 'other')}
    with tempdir() as d, library(d, files), quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = assessment.DLCalculationAssessment({'Verbose': False, 'PrintLog': False, 'LogFile': None, 'Seed': S.int('rng', 1, 10 ** 6)})
        a.stories = 1
        a.demand.load_sample(pd.DataFrame({'PWS-1-1': [*d1, 'unitless'], 'PIH-1-1': [*d2, 'unitless'], 'ONE-0-1': [*[1.0] * n, 'unitless']}, index=[*map(str, range(n)), 'Units'], dtype=object))
        cmps = {wind: 'Peak Gust Wind Speed', flood: 'Peak Inundation Height', **({'other': 'Peak Inundation Height'} if other else {})}
        a.asset.load_cmp_model({'marginals': pd.DataFrame({'Units': 'ea', 'Location': [*['1' for _ in cmps], '0'], 'Direction': '1', 'Theta_0': 1.0}, index=[*cmps, 'collapse'])})
        a.asset.generate_cmp_sample(n)
        t = functions({c: 0 for c in cmps})
        for c, x in cmps.items():
            t.loc[f'{c}-Cost', ['Demand-Type', 'LossFunction-Theta_0', 'DV-Unit']] = [x, f'0.0,{ratio[c]}|0.0,1.0', 'loss_ratio']
        t.to_csv(os.path.join(d, 'loss.csv'), index_label='ID')
        pd.DataFrame({'Repair': list(cmps)}, index=list(cmps)).to_csv(os.path.join(d, 'map.csv'))
        S.no_raise('damage', S.call(a.calculate_damage, 'm', None, None, None, None, 'None'))
        res = S.call(a.calculate_loss, 'User Defined', None, None, os.path.join(d, 'loss.csv'), d, 'None', None, None, None, None, 'CustomDLDataFolder/map.csv', ('Cost',), None, how)
    S.no_raise('losses', res)
    got = res[0].to_numpy(dtype=float).reshape(n, -1)[:, 0]
    x, y = d1 * ratio[wind], d2 * ratio[flood]
    S.cover('combined' if how else 'not combined')
    want = [multilinear(axes, table, [x[i], y[i]]) for i in range(n)] if how else x + y
    S.ensure('losses combined with the table of the library', bool(np.allclose(got, np.array(want) + (d2 * ratio['other'] if other else 0), rtol=1e-7)), f'{got} {want}')


@contract('C36', 'every default table', ['pelicun.assessment.AssessmentBase.get_default_data', 'pelicun.assessment.AssessmentBase.get_default_metadata'], kind='bounded', modules=[assessment, file_io], runs=40,
          bound='every method of the library with three types of models and metadata, and every former name (enumerated); another table was read before', covers=['named', 'legacy', 'absent'])
def every_table(S):
    m = S.case('method', sorted(PATHS))
    t = S.case('type', ['fragility', 'consequence_repair', 'loss_repair'])
    other = next(x for x in ('Hazus Earthquake - Buildings', 'FEMA P-58') if PATHS[x] != PATHS[m])
    old = [k for k, x in LEGACY.items() if PATHS[x] == PATHS[m] and k.startswith('damage') == (t == 'fragility') and t != 'loss_repair']
    how = S.case('name', ['named', *(old or []), 'absent'])
    files = {}
    for i, x in enumerate((m, other)):
        for j, y in enumerate(('fragility', 'consequence_repair', 'loss_repair')):
            if how == 'absent' and (x, y) == (m, t):
                continue
            files[x, y + '.csv'] = pd.DataFrame({'Incomplete': [0], 'LS1-Theta_0': [1.0 + 10 * i + j]}, index=['c' if y == 'fragility' else 'c-Cost'])
            files[x, y + '.json'] = json.dumps({'method': i, 'type': y})
    args = (m, t) if how in ('named', 'absent') else (how,)
    a = full_assessment()
    with tempdir() as d, library(d, files), quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        before = S.call(a.get_default_data, other, 'fragility')
        x = S.call(a.get_default_data, *args)
        y = S.call(a.get_default_metadata, *args)
    S.no_raise('another table', before)
    if how == 'absent':
        S.cover('absent')
        S.refused('tables that are not there are refused', x, 'FileNotFoundError', 'ValueError')
        S.refused('metadata that is not there is refused', y, 'FileNotFoundError', 'ValueError')
        return
    S.cover('named' if how == 'named' else 'legacy')
    S.no_raise('loaded', x)
    S.no_raise('metadata loaded', y)
    S.ensure('table of the named method', x.shape == (1, 2) and float(x['LS1', 'Theta_0'].iloc[0]) == 1.0 + ['fragility', 'consequence_repair', 'loss_repair'].index(t), f'{args} {x}')
    S.ensure('metadata of the named method', y == {'method': 0, 'type': t}, f'{args} {y}')


@contract('C36', 'every list of consequences', [DL + 'load_consequence_info', DL + 'calculate_loss', SUB], kind='bounded', modules=[assessment, file_io], runs=60,
          bound='up to two of three methods in every order, with consequences, loss functions, both or neither; no custom database, one by path or one by folder; named or by former name (enumerated); the loss model by its interface',
          covers=['nothing listed', 'two methods', 'both kinds', 'absent', 'custom', 'former name', 'replacement time of the last'])
def every_list(S):
    from contracts.c34 import Losses, Assets
    A, B, C = 'Hazus Earthquake - Buildings', 'Hazus Earthquake - Transportation', 'FEMA P-58'
    listed = S.case('listed', [(), (A,), (A, B), (B, A), (A, C), (C, A)])
    has = {m: S.case(f'{i}: files', ['consequences', 'functions', 'both', 'neither']) for i, m in enumerate(listed)}
    own = S.case('custom', [None, 'path', 'folder'])
    old = bool(listed) and has[listed[0]] in ('consequences', 'both') and S.case('former name', [False, True])
    num = {m: i + 1.0 for i, m in enumerate((A, B, C))}
    files = {(A, 'unused.csv'): 'x', (B, 'unused.csv'): 'x', (C, 'unused.csv'): 'x'}

    def table(v):
        rows = {k: {'Incomplete': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': 'day', 'DS5-Theta_0': v} for k in ('STR.RES1-Time', f'own{int(v)}.RES1-Time')}
        return pd.DataFrame.from_dict(rows, orient='index')
    names, paths, value = [], [], {}
    for m in listed:
        if has[m] in ('consequences', 'both'):
            files[m, 'consequence_repair.csv'] = table(num[m])
            paths.append((m, 'consequence_repair.csv'))
        if has[m] in ('functions', 'both'):
            files[m, 'loss_repair.csv'] = functions({'STR.RES1': num[m], f'own{int(num[m])}.RES1': num[m]})
            if has[m] == 'functions':
                paths.append((m, 'loss_repair.csv'))
        if has[m] == 'both':
            S.cover('both kinds')
        if has[m] == 'neither':
            S.cover('absent')
        value[m] = has[m]
        names.append(CSV[m] + '.csv' if old and m == listed[0] else m)
    if old:
        S.cover('former name')
    if len(listed) == 2:
        S.cover('two methods')
    text = ', '.join(names) if names else S.case('empty', ['None', None])
    if not names:
        S.cover('nothing listed')
    times = [num[m] for m in listed if has[m] in ('consequences', 'both')] + ([9.0] if own else [])
    if not paths and not own:
        S.stop()
    # the time of a total loss is the one of the last database, where only consequences give it
    plain = bool(times) and not any(x == 'functions' for x in has.values())
    a = assessment.DLCalculationAssessment({'Verbose': False, 'PrintLog': False, 'LogFile': None})
    a.loss, a.asset = Losses(), Assets(['STR.W1', 'own1', 'own2.x', 'own3', 'own9', 'other'])
    with tempdir() as d, library(d, files) as root, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        table(9.0).to_csv(os.path.join(d, 'mine.csv'), index_label='ID')
        custom = {None: None, 'path': os.path.join(d, 'mine.csv'), 'folder': 'CustomDLDataFolder/mine.csv'}[own]
        method = A if plain else 'Hazus Earthquake'
        res = S.call(a.calculate_loss, 'Automatic', 'RES1', text, custom, d, method, None, None if plain else {'Unit': 'day', 'Median': 1.0})
        want = [str(folder(root, m) / f) for m, f in paths] + ([os.path.join(d, 'mine.csv')] if own else [])
    if own:
        S.cover('custom')
    S.no_raise('losses', res)
    p = a.loss.parameters
    S.ensure('every database with data, the last listed first', [str(x) for x in p if not isinstance(x, pd.DataFrame)] == want[::-1], f'{[x for x in p if isinstance(x, str)]} {want}')
    got = {c: a.loss.map.loc[c, 'Repair'] for c in a.loss.map.index}
    model = {'STR.W1': 'STR.RES1', **{c: c.split('.')[0] + '.RES1' for c in ('own1', 'own2.x', 'own3', 'own9') if int(c[3]) in {int(num[m]) for m in listed if has[m] != 'neither'} | ({9} if own else set())}}
    S.ensure('components of all databases, and no others, have consequences', got == {**model, 'collapse': 'replacement', 'irreparable': 'replacement'}, f'{got} {model}')
    if plain:
        S.cover('replacement time of the last')
        t = p[-1]
        S.ensure('replacement time of the governing database', float(t.loc[('replacement', 'Time'), ('DS1', 'Theta_0')]) == times[-1] and t.loc[('replacement', 'Time'), ('DV', 'Unit')] == 'day', f'{times}')
