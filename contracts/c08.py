"""C08 a fixed seed makes every result reproducible"""
import json
import os
import random
import subprocess
import sys
import warnings
from pathlib import Path
import numpy as np
import pandas as pd
from pelicun import base
from pyvc.contract import contract, Raised
from contracts.util import *
from contracts.scenario import Scenario, digest, disturb

DL = 'pelicun.assessment.'


class Elsewhere(Exception):
    pass


class only_own_generator:
    """any source of random numbers other than the generators of the assessments is refused"""

    def __enter__(self):
        self.swaps = []

        def refuse(name):
            def f(*a, **k):
                raise Elsewhere(f'{name} used')
            return f
        legacy = [x for x in ('random', 'rand', 'randn', 'randint', 'choice', 'permutation', 'shuffle', 'uniform', 'normal', 'lognormal', 'multinomial', 'random_sample', 'standard_normal', 'seed', 'multivariate_normal', 'binomial', 'weibull') if hasattr(np.random, x)]
        for x in legacy:
            self.swaps.append(swap(np.random, x, refuse('numpy.random.' + x)))
        for x in ('random', 'uniform', 'choice', 'shuffle', 'sample', 'gauss', 'randint', 'normalvariate', 'seed'):
            self.swaps.append(swap(random, x, refuse('random.' + x)))
        self.swaps.append(swap(np.random, 'default_rng', self.default_rng(np.random.default_rng)))
        for s in self.swaps:
            s.__enter__()

    @staticmethod
    def default_rng(real):
        def f(seed=None):
            if seed is None:
                raise Elsewhere('a generator without a seed is created')
            return real(seed)
        return f

    def __exit__(self, *a):
        for s in reversed(self.swaps):
            s.__exit__(*a)


@contract('C08', 'repeated', [DL + 'AssessmentBase.__init__', 'pelicun.model.demand_model.DemandModel.generate_sample', 'pelicun.model.asset_model.AssetModel.generate_cmp_sample', 'pelicun.model.damage_model.DamageModel.calculate',
                              'pelicun.model.loss_model.LossModel.calculate', 'pelicun.model.loss_model.LossModel.aggregate_losses'], kind='runtime', runs=40,
          bound='up to 5 component types, 3 stories, 8 realizations, all options that affect sampling', covers=['repeated', 'interleaved', 'other seed', 'other option'])
def repeated(S):
    r = S.rng
    seed = S.int('scenario', 1, 10 ** 6)
    first = Scenario(seed)
    S.drawn['options'] = first.options
    own = only_own_generator()
    disturb(r)
    with own:
        want = S.call(first.run)
    if isinstance(want, Raised) and want.is_a('Elsewhere'):
        S.ensure('all random numbers are drawn from the generator of the assessment', False, want.msg)
    S.no_raise('calculated', want)
    disturb(r)
    S.ensure('repeated with the same seed', Scenario(seed).run() == want)
    S.cover('repeated')
    # two assessments advanced alternately
    one, two = Scenario(seed), Scenario(int(r.integers(10 ** 6, 2 * 10 ** 6)))
    alone = Scenario(two.S.seed).run()
    got = [{}, {}]
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        parts = [one.steps(), two.steps()]
        live = [0, 1]
        while live:
            i = live[int(r.integers(len(live)))]
            try:
                k, t = next(parts[i])
                got[i][k] = digest(t)
            except StopIteration:
                live.remove(i)
    S.ensure('assessments do not influence each other', got == [want, alone], {'got': got, 'expected': [want, alone]})
    S.cover('interleaved')
    other = Scenario(seed)
    other.options['Seed'] += 1
    S.ensure('results depend on the seed', other.run()['demand'] != want['demand'])
    S.cover('other seed')
    a = full_assessment(Seed=5)
    before = a.options.rng.bit_generator.state
    a.options.seed = 5
    S.ensure('setting the seed restarts the generator', a.options.rng.bit_generator.state == before and a.options.seed == 5)
    S.cover('other option')


@contract('C08', 'processes', [DL + 'AssessmentBase.__init__', 'pelicun.model.loss_model.LossModel.add_loss_map', 'pelicun.model.loss_model.RepairModel_DS._create_DV_RVs', 'pelicun.model.loss_model.RepairModel_LF._create_DV_RVs', 'pelicun.model.damage_model.DamageModel_DS._create_dmg_RVs'],
          kind='runtime', runs=3, bound='12 scenarios in processes with 3 different hash seeds', covers=['compared'])
def processes(S):
    seeds = [int(x) for x in S.rng.integers(1, 10 ** 6, 12)]
    S.drawn['scenarios'] = seeds
    root = str(Path(__file__).resolve().parent.parent)
    code = 'import sys\nsys.path[:0]=%r\nfrom contracts import scenario\nscenario.worker(%r)' % ([root, *[p for p in sys.path if p]], seeds)
    procs = []
    with tempdir() as d:
        for h in ('1', '7', '12345'):
            env = dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE='1')
            procs.append(subprocess.Popen([sys.executable, '-W', 'ignore', '-c', code], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
        outs = [p.communicate(timeout=600) for p in procs]
    res = []
    for p, (o, e) in zip(procs, outs):
        S.ensure('calculated in a process', p.returncode == 0, e[-600:])
        res.append(json.loads(o.splitlines()[-1]))
    for k in res[0]:
        for x in res[0][k]:
            S.ensure('the same results in every process', all(r[k][x] == res[0][k][x] for r in res), {'scenario': k, 'result': x})
    S.cover('compared')


@contract('C08', 'every kind of seed', ['pelicun.base.Options.seed', 'pelicun.base.Options.rng', 'pelicun.base.Options.__init__'], kind='bounded', modules=[base], runs=30, bound='eight seeds from 0 to 2 ** 64 in two number types, given in the options or set later, before or after random numbers were drawn (enumerated)', covers=['options', 'later', 'zero', 'drawn before'])
def seeds(S):
    seed = S.case('seed', [0, 1, 5, np.int64(0), np.int64(7), 2 ** 31, 2 ** 32 - 1, 2 ** 64])
    how = S.case('given', ['options', 'later'])
    drawn = S.case('drawn before', [False, True])
    S.cover(how)
    if seed == 0:
        S.cover('zero')
    if drawn:
        S.cover('drawn before')

    def make():
        a = full_assessment(**({'Seed': seed} if how == 'options' else {'Seed': 3} if drawn else {}))
        if drawn:
            a.options.rng.random(3)
        if how == 'later' or drawn:
            a.options.seed = seed
        return a
    np.random.seed(1)
    one = make()
    x = one.options.rng.random(5)
    np.random.seed(2)
    two = make()
    y = two.options.rng.random(5)
    S.ensure('the seed is kept', one.options.seed == seed)
    S.ensure('the same seed gives the same numbers', bool(np.array_equal(x, y)), f'{x} {y}')
    S.ensure('the numbers go on', not np.array_equal(one.options.rng.random(5), x))
    three = full_assessment(Seed=int(seed) + 1)
    S.ensure('another seed gives other numbers', not np.array_equal(three.options.rng.random(5), x))
