"""C40 commands do exactly what is requested on the command line"""
import contextlib
import inspect
import io
import logging
import os
import sys
from pathlib import Path
import numpy as np
from pelicun import cli
from pelicun.tools import DL_calculation as dl
from pyvc.contract import contract, Raised
from contracts.util import *

CLI = 'pelicun.cli.'
DLC = 'pelicun.tools.DL_calculation.'


class Calls:
    """stands in for a command and records the arguments it is given, by name"""

    def __init__(self, module, name):
        self.signature, self.calls = inspect.signature(getattr(module, name)), []

        def f(*a, **k):
            b = self.signature.bind(*a, **k)
            b.apply_defaults()
            self.calls.append(dict(b.arguments))
        self.s = swap(module, name, f)

    def __enter__(self):
        self.s.__enter__()
        return self

    def __exit__(self, *a):
        self.s.__exit__(*a)


def command(S, main, words):
    """run a command line; returns its exit code"""
    def run():
        try:
            main()
        except SystemExit as e:
            return 0 if e.code is None else e.code
        return 0
    old = sys.argv
    out = io.StringIO()
    try:
        sys.argv = ['command', *words]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            return S.call(run)
    finally:
        sys.argv = old


def log_of_library():
    g = logging.getLogger('pelicun.dlml')
    for h in list(g.handlers):
        h.close()
        g.removeHandler(h)
    return g


@contract('C40', 'pelicun', [CLI + 'main'], kind='bounded', modules=[cli], runs=60, bound='every combination of the listed words in two orders', covers=['regional simulation', 'library', 'refused'])
def pelicun_command(S):
    what = S.case('command', ['regional_sim', 'dlml', 'wrong'])
    first = S.case('options first', [True, False])
    with Calls(cli, 'regional_sim') as sim, Calls(cli, 'dlml_update') as lib, tempdir() as d:
        if what == 'wrong':
            words = S.case('words', [[], ['unknown'], ['dlml'], ['dlml', 'remove'], ['dlml', 'update', 'latest', 'v1'], ['regional_sim', 'a.json', 'b.json'], ['regional_sim', '-n', 'many'], ['dlml', 'update', '--cache'], ['regional_sim', '--cores', '3', 'x', 'y']])
            code = command(S, cli.main, words)
            S.no_raise('refused with an exit code', code)
            S.ensure('anything else is refused', code != 0, f'{words} {code}')
            S.ensure('nothing is done then', not sim.calls and not lib.calls)
            S.cover('refused')
            return
        if what == 'regional_sim':
            file, cores, flag = S.case('file', [None, 'my config.json']), S.case('cores', [None, 1, 12]), S.case('flag', ['-n', '--num-cores'])
            o = [] if cores is None else [flag, str(cores)]
            p = [] if file is None else [file]
            code = command(S, cli.main, ['regional_sim', *(o + p if first else p + o)])
            S.ensure('one simulation', code == 0 and len(sim.calls) == 1 and not lib.calls, f'{code} {sim.calls}')
            S.ensure('of the configuration requested', sim.calls[0]['config_file'] == (file or 'inputRWHALE.json'), f'{sim.calls}')
            S.ensure('with the number of cores requested', sim.calls[0]['num_cores'] == cores and type(sim.calls[0]['num_cores']) is type(cores), f'{sim.calls}')
            S.cover('regional simulation')
            return
        target, fresh, log = S.case('target', [None, 'latest', 'v1.2.0', 'commit abc1234', 'commit-tag', 'communal v2']), S.case('no cache', [False, True]), S.case('log', [False, True])
        o = (['--no-cache'] if fresh else []) + (['--log', f'{d}/update.log'] if log else [])
        p = [] if target is None else [target]
        g = log_of_library()
        level = g.level
        try:
            code = command(S, cli.main, ['dlml', 'update', *(o + p if first else p + o)] if p or not first else ['dlml', *o, 'update'])
            S.ensure('one update', code == 0 and len(lib.calls) == 1 and not sim.calls, f'{code} {lib.calls}')
            k = lib.calls[0]
            commit = target.split(' ', 1)[1] if target and target.startswith('commit ') else None
            S.ensure('to the commit requested', k['commit'] == commit, f'{target} {k}')
            S.ensure('to the version requested', (k['version'] is None if commit else (k['version'] or 'latest') == (target or 'latest')), f'{target} {k}')
            S.ensure('with files of the cache unless they are refused', k['use_cache'] is not fresh, f'{k}')
            g.info('message of the update')
            S.ensure('a log is written when requested', ('message of the update' in Path(f'{d}/update.log').read_text()) if log else not os.path.exists(f'{d}/update.log'))
        finally:
            log_of_library()
            g.setLevel(level)
        S.cover('library')


OPTIONS = [('config_path', '-c', '--filenameDL', ['cfg.json', None]), ('demand_file', '-d', '--demandFile', [None, 'demands.csv']), ('realizations', '-s', '--Realizations', [None, '100']), ('output_path', None, '--dirnameOutput', [None, 'out dir']),
           ('custom_model_dir', None, '--custom_model_dir', [None, 'models']), ('output_format', None, '--output_format', [None, 'json', 'csv'])]


@contract('C40', 'calculation', [DLC + 'main', 'pelicun.base.str2bool'], kind='bounded', modules=[dl], runs=100, max_paths=60000, bound='every combination of the listed arguments, in two orders, with the listed spellings of yes and no', covers=['calculated', 'help', 'refused'])
def calculation(S):
    with Calls(dl, 'run_pelicun') as run, quiet():
        what = S.case('kind', ['arguments', 'switches', 'none', 'wrong'])
        if what == 'none':
            code = command(S, dl.main, [])
            S.ensure('without arguments nothing is calculated', code == 0 and not run.calls, f'{code}')
            S.cover('help')
            return
        if what == 'wrong':
            words = S.case('words', [['-c', 'cfg.json', '--detailed_results', 'maybe'], ['-c', 'cfg.json', '--coupled_EDP', '2'], ['-c', 'cfg.json', '--unknown', '1'], ['-c'], ['-c', 'cfg.json', 'more']])
            code = command(S, dl.main, words)
            S.ensure('anything else is refused', not isinstance(code, Raised) and code != 0, f'{words} {code}')
            S.ensure('nothing is calculated then', not run.calls)
            S.cover('refused')
            return
        words, want = [], {}
        if what == 'arguments':
            for name, short, long, values in OPTIONS:
                v = S.case(name, values)
                want[name] = v
                if v is not None:
                    words.append([short or long, v] if S.case(f'{name} spelling', ['short', 'long']) == 'short' or not short else [long, v] if name != 'config_path' else [f'{long}={v}'])
            want.update(detailed_results=True, coupled_edp=False)
            if not words:
                words, want['config_path'] = [['-c', 'x']], 'x'
        else:
            words, want = [['-c', 'cfg.json']], {'config_path': 'cfg.json', 'detailed_results': True, 'coupled_edp': False}
            for name, long in (('detailed_results', '--detailed_results'), ('coupled_edp', '--coupled_EDP')):
                v = S.case(name, [None, 'True', 'true', 'yes', '1', 't', 'Y', 'False', 'false', 'no', '0', 'F', 'n'])
                if v is not None:
                    words.append([long, v])
                    want[name] = v.lower() in ('true', 'yes', '1', 't', 'y')
            for long in ('--log_file', '--regional', '--ground_failure'):
                if S.case(long, [False, True]):
                    words.append([long, 'True'])
        if S.case('reversed', [False, True]):
            words.reverse()
        words = [x for w in words for x in w]
        code = command(S, dl.main, words)
        S.no_raise('calculated', code)
        S.ensure('one calculation', code == 0 and len(run.calls) == 1, f'{words} {code}')
        k = run.calls[0]
        for name, v in want.items():
            got = k[name]
            if v is None:
                ok = got is None
            elif isinstance(v, bool):
                ok = got is v
            else:
                ok = str(got) == v
            S.ensure('with the arguments given', ok, f'{words}: {name} {got!r}')
        S.cover('calculated')
