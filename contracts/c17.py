"""C17 damage processes change only what they prescribe"""
import numpy as np
import pandas as pd
from pelicun.model import damage_model
from pyvc.contract import contract, Raised
from pyvc.core import And, Or, Not, Implies, ite
from contracts.util import *
from contracts import gen

DSM = 'pelicun.model.damage_model.DamageModel_DS.'
NAMES = ['cmp', 'loc', 'dir', 'uid', 'block']


def interpret(S, cols, rows, tasks):
    """independent reading of a damage process, one realization at a time; rows is changed in place"""
    acted = []
    for tid, src, at_loc, events in tasks:
        mine = [j for j, c in enumerate(cols) if c[0] == src]
        if not mine:
            continue
        for k, targets in events:
            for tgt, state in targets:
                new = []
                for row in rows:
                    row = list(row)
                    places = sorted({cols[j][1] for j in mine}) if at_loc else [None]
                    cur = list(row)
                    for p in places:
                        # locations are disjoint, so they can be taken one after the other
                        s = [row[j] for j in mine if p is None or cols[j][1] == p]
                        worst = s[0]
                        for x in s[1:]:
                            worst = ite(x > worst, x, worst) if S.symbolic else max(x, worst)
                        hit = worst == k
                        for j, c in enumerate(cols):
                            aimed = (c[0] != src if tgt == 'ALL' else c[0] == tgt) and (p is None or c[1] == p)
                            if aimed:
                                cur[j] = ite(hit, state, cur[j]) if S.symbolic else (state if hit else cur[j])
                                acted.append(True)
                    new.append(cur)
                rows[:] = new
    return acted


def encode(S, tasks, single=True):
    """the dictionary a user writes"""
    out = {}
    for tid, src, at_loc, events in tasks:
        ev = {}
        for k, targets in events:
            t = [f'{c}_{"NA" if s == -1 else f"DS{s}"}' for c, s in targets]
            ev[f'DS{k}'] = t[0] if len(t) == 1 and single else t
        out[f'{tid}_{src}{"-LOC" if at_loc else ""}'] = ev
    return out


@contract('C17', 'tasks', [DSM + 'perform_dmg_task', DSM + '_perform_dmg_event', DSM + '_perform_dmg_event_loc'], max_paths=20000, kind='bounded', modules=[damage_model], runs=300,
          bound='symbolic: 1-2 realizations, 3 component types, 3-4 columns, one task with up to two events and any damage states; concrete: up to 10 columns x 20 realizations and 4 tasks',
          covers=['location matched', 'everything else', 'not applicable', 'two events', 'missing source', 'missing target'])
def tasks_(S):
    if S.symbolic:
        cols = [tuple(c.split()) for c in S.case('columns', [['a 1 1 0 1', 'a 1 1 0 2', 'b 1 1 0 1', 'b 2 1 0 1'], ['a 1 1 0 1', 'a 2 1 0 1', 'b 1 1 0 1', 'b 2 1 0 1'], ['b 1 2 0 1', 'a 1 1 0 1', 'c 2 1 0 1']])]
        n = S.case('n', [1, 2]) if len(cols) == 3 else 1
        rows = [[S.int(f's{r}_{j}', lo=-1) for j in range(len(cols))] for r in range(n)]
    else:
        cmps = ['a', 'b', 'C.d', 'e-LOCK', 'f_g'][:S.int('types', 1, 5)]
        cols = sorted({(str(S.rng.choice(cmps)), str(S.rng.choice([0, 1, 2, 11])), str(S.rng.integers(0, 3)), '0', str(S.rng.integers(1, 4))) for _ in range(S.int('columns', 1, 10))})
        if S.rng.random() < 0.3:
            cols = [cols[int(i)] for i in S.rng.permutation(len(cols))]
        n = S.int('n', 1, 20)
        rows = [[int(S.rng.integers(-1, 4)) for _ in cols] for _ in range(n)]
    src = S.case('source', ['a', 'zz'])
    loc = S.case('at location', [False, True])
    tgt = lambda i: (S.case(f'target{i}', ['b', 'ALL', 'a', 'yy'] if src == 'a' else ['b']), S.case(f'state{i}', [2, -1] if src == 'a' else [0]))
    if S.symbolic:
        ev = S.case('events', [0, 1, 2] if n == 1 and src == 'a' else [0])
        t0 = tgt(0)
        events = [[(1, [t0])], [(2, [t0, ('c' if len(cols) == 3 else 'b', 1)])], [(1, [t0]), (2, [('b', 0)])]][ev]
        tasks = [(1, src, loc, events)]
    else:
        pick = lambda: (str(S.rng.choice([*cmps, 'ALL', 'yy'])), int(S.rng.integers(-1, 4)))
        tasks = [(t + 1, str(S.rng.choice([*cmps, 'zz'])), bool(S.rng.random() < 0.5), [(int(k), [pick() for _ in range(int(S.rng.integers(1, 3)))]) for k in S.rng.permutation(4)[:int(S.rng.integers(1, 4))]]) for t in range(S.int('tasks', 1, 4))]
    m = damage_model.DamageModel_DS(base_assessment())
    m.ds_sample = pd.DataFrame(np.array(rows, dtype=object if S.symbolic else 'int64').reshape(n, len(cols)), columns=pd.MultiIndex.from_tuples(cols, names=NAMES), index=range(n))
    spec = encode(S, tasks, single=True)
    if not S.symbolic:
        S.drawn['tasks'], S.drawn['columns'] = spec, cols
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for task in spec.items():
            r = S.call(m.perform_dmg_task, task)
            S.no_raise('the task is applied', r)
    tasks = [(None, k.split('_', 1)[1].removesuffix('-LOC'), k.endswith('-LOC'), [(int(e[2:]), [(t.rsplit('_', 1)[0], -1 if t.endswith('_NA') else int(t.rsplit('_DS', 1)[1])) for t in (v if isinstance(v, list) else [v])]) for e, v in ev.items()]) for k, ev in spec.items()]
    want = [list(r) for r in rows]
    interpret(S, cols, want, tasks)
    S.ensure('columns kept', [tuple(c) for c in m.ds_sample.columns] == cols)
    S.ensure('realizations kept', len(m.ds_sample) == n)
    got = m.ds_sample.to_numpy()
    for i in range(n):
        for j, c in enumerate(cols):
            S.ensure('exactly the prescribed changes', S.eq(got[i][j], want[i][j]), f'{spec}: {c} realization {i}: {got[i][j]} instead of {want[i][j]} from {rows[i]}' if not S.symbolic else f'{c}')
    for t in tasks:
        S.cover('location matched' if t[2] else 'everything else')
        if len(t[3]) > 1:
            S.cover('two events')
        if t[1] not in {c[0] for c in cols}:
            S.cover('missing source')
        for _, targets in t[3]:
            for x, s in targets:
                if s == -1:
                    S.cover('not applicable')
                if x != 'ALL' and x not in {c[0] for c in cols}:
                    S.cover('missing target')


@contract('C17', 'malformed tasks', [DSM + 'perform_dmg_task'], kind='runtime', runs=40, bound='task texts listed in the harness')
def malformed(S):
    m = damage_model.DamageModel_DS(base_assessment())
    m.ds_sample = pd.DataFrame([[1, 0], [2, 1]], columns=pd.MultiIndex.from_tuples([('a', '1', '1', '0', '1'), ('b', '1', '1', '0', '1')], names=NAMES))
    snap = m.ds_sample.copy(deep=True)
    bad = S.case('task', [('1_a', {'LS1': 'b_DS1'}), ('1_a', {'DS1': 'b_LS1'}), ('1_a', {'DS1': 'b'}), ('1_a', {'DSx': 'b_DS1'}), ('1_a', {'DS1': 'b_DSx'}), ('1_a', {'DS1': ['b_xx']}), ('1_a-LOC', {'1': 'b_DS1'})])
    r = S.call(m.perform_dmg_task, bad)
    S.refused('unclear tasks are refused', r, 'ValueError')
    S.ensure('no damage changed', m.ds_sample.equals(snap))


@contract('C17', 'calculation', ['pelicun.model.damage_model.DamageModel.calculate', DSM + 'perform_dmg_task'], kind='runtime', runs=100, bound='up to 4 component types, 3 stories, 15 tasks, 20 realizations',
          covers=['more than nine tasks', 'changed', 'unordered'])
def calculation(S):
    import warnings
    seed = S.int('rng', 1, 10 ** 6)
    stories, n = S.int('stories', 1, 3), S.int('n', 2, 20)
    C = gen.components(S, stories, S.int('types', 2, 4))
    S.drawn['components'] = C
    ids = list(C)
    pick = lambda: (str(S.rng.choice([*ids, 'ALL'])), int(S.rng.integers(-1, 4)))
    T = S.int('tasks', 1, 15)
    tids = sorted(int(x) for x in S.rng.permutation(30)[:T])
    tasks = [(t, str(S.rng.choice(ids)), bool(S.rng.random() < 0.4), [(int(S.rng.integers(1, 4)), [pick() for _ in range(int(S.rng.integers(1, 3)))])]) for t in tids]
    order = [tasks[int(i)] for i in S.rng.permutation(T)] if S.rng.random() < 0.6 else tasks
    spec = encode(S, order)
    S.drawn['process'] = spec
    st = S.rng.bit_generator.state
    out = []
    for p in (None, spec):
        S.rng.bit_generator.state = st
        a = full_assessment(Seed=seed)
        gen.demand(S, a, stories, n)
        gen.asset(S, a, stories, n, C)
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            a.damage.load_model_parameters([gen.damage_table(C)], set(C))
            keep = copy.deepcopy(p)
            r = S.call(a.damage.calculate, p)
        S.no_raise('calculated', r)
        S.ensure('the process description is kept', p == keep)
        out.append(a.damage.ds_model.ds_sample)
    before, after = out
    S.ensure('same columns', list(before.columns) == list(after.columns))
    cols = [tuple(c) for c in before.columns]
    want = before.to_numpy().tolist()
    interpret(S, cols, want, tasks)
    if T > 9:
        S.cover('more than nine tasks')
    if order != tasks:
        S.cover('unordered')
    if want != before.to_numpy().tolist():
        S.cover('changed')
    got = after.to_numpy().tolist()
    S.ensure('exactly the prescribed changes in the order of the task numbers', got == want, f'{spec}: {[(cols[j], i, got[i][j], want[i][j]) for i in range(n) for j in range(len(cols)) if got[i][j] != want[i][j]][:5]}')
