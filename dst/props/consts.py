"""C02: the constants of the loaded configuration are those of every model."""
import contextlib
import io
import json
import logging
import os
import sys

from .. import checker, gen, refmodel, sim, spec as S
from ..sim import REAL_IO_OPEN, Violation
from ..world import js
from .base import Prop
from .conf import C01, RAW, WRONG, config
from .mfam import M

FAMILIES = ['M01', 'M02', 'M03', 'M04', 'M05', 'M06', 'M07']


class C02(M):
    def __init__(self, pid):
        super().__init__('M08')
        self.id, self.fam = pid, 'M08'
        self.runs = {'quick': 450, 'thorough': 10000}
        self.rule = ('configurations with random constants (BIG, EPSILON) are loaded in random order, between loads that are refused and the default; after '
                     'some of them a random system is built, modelled and solved; its optimum is that of the independent model with the constants in force, '
                     'and arbitrary answers obey the rules with them. Non-trivial: at least two configurations were in force for a model.')
        self.measure = 'distinct sequences of problems'
        self.assumptions = ['constants well above solver tolerances, so that "on" is a crisp notion']

    def generate(self, rng, tier):
        systems = []
        for _ in range(rng.randint(1, 2)):
            sp = gen.feasible_system(rng, rng.choice(['M02', 'M05', 'M06', 'M08']), none_size=0.7, n=(2, 5), comps=(1, 3))[0]
            for c in sp['comps']:
                for _, f in S.flows_of(c):
                    if isinstance(f.get('size'), dict) and f['size'].get('fixed') is None and not f['size'].get('segments') and rng.random() < 0.4:
                        f['size'].pop('max', None)
                    if f.get('prev') is not None and rng.random() < 0.5:  # near the threshold
                        f['prev'] = [rng.choice([0.0, 0.0021, 0.04, 0.13, x]) for x in f['prev']] if isinstance(f['prev'], list) else rng.choice([0.0021, 0.04, 0.13])
            systems.append({'spec': sp, 'notation': rng.randrange(1 << 30), 'solver': 'highs',
                            'answers': [{'mode': rng.choice(['vertex', 'push', 'tie']), 'seed': rng.randrange(1 << 30), 'pattern': '.', 'density': 0.5} for _ in range(2)]})
        ops = []
        for i in range(rng.randint(2, 4)):
            d = config(rng, i)
            d['modeling'] = {'BIG': rng.choice([3, 7, 15, 40, 150]), 'EPSILON': rng.choice([1e-3, 0.005, 0.03, 0.1, 0.4]), 'BIG_BINARY_BOUND': rng.choice([10, 100000])}
            ops.append({'do': 'load', 'data': d})
            if rng.random() < 0.5:
                bad = js(d)
                bad['modeling'] = {'BIG': 11, 'EPSILON': 0.25, 'BIG_BINARY_BOUND': 1000}
                k = rng.random()
                if k < 0.4:
                    op = {'data': C01.put(bad, *rng.choice([(key, v) for key in sorted(WRONG) for v in WRONG[key]]))}
                elif k < 0.6:
                    op = {'raw': rng.choice(RAW)}
                else:
                    op = {'data': C01.put(bad, ('logging', 'file'), rng.choice(['dir', 'none/x.log', '']))}
                ops.append(dict(op, do='refused'))
            ops.append({'do': 'model', 'system': rng.randrange(len(systems))})
        return js({'systems': systems, 'ops': ops})

    def candidates(self, sc):
        for i in range(len(sc['ops'])):
            c = js(sc)
            del c['ops'][i]
            if c['ops'] and c['ops'][0]['do'] == 'load':
                yield c
        for i, s in enumerate(sc['systems']):
            for d in super().candidates(s):
                c = js(sc)
                c['systems'][i] = d
                yield c

    def new_sim(self):
        s = sim.Sim()
        s.epsilon = None
        return s

    def rules(self):
        return FAMILIES

    def execute(self, sc, env):
        import flixOpt as fx
        import yaml
        root = env.dir()
        lg = logging.getLogger('flixOpt')
        keep = (fx.CONFIG.config_name, fx.CONFIG.logging, fx.CONFIG.modeling)
        handlers, level = lg.handlers[:], lg.level
        consts = refmodel.EPS, refmodel.BIG
        cwd, so, se = os.getcwd(), sys.stdout, sys.stderr
        keys, forces, now = [], set(), None
        lg.handlers[:] = []
        os.chdir(root)
        sys.stdout = sys.stderr = io.StringIO()
        try:
            os.mkdir('sub')
            os.mkdir('dir')
            for i, op in enumerate(sc['ops']):
                if op['do'] == 'model':
                    refmodel.EPS, refmodel.BIG = checker.EPS, checker.BIG = now['EPSILON'], float(now['BIG'])
                    what = f'with {now}'
                    try:
                        info = super().execute(sc['systems'][op['system']], env)
                    except Violation as v:
                        raise Violation(v.cls, f'{what}: {v.message}') from v
                    keys.append(info['key'])
                    forces.add(json.dumps(now))
                    continue
                with REAL_IO_OPEN(f'c{i}.yaml', 'w', encoding='utf-8') as f:
                    f.write(op['raw'] if 'raw' in op else yaml.safe_dump(op['data'], allow_unicode=True))
                try:
                    fx.CONFIG.load_config(f'c{i}.yaml')
                    now = (op.get('data') or {}).get('modeling')
                    if op['do'] == 'refused':
                        return {'skip': 'accepted', 'key': ''}  # C01 decides that
                except Exception:
                    if op['do'] == 'load':
                        raise
                    env.counts['fault:refused configuration'] += 1
                lg.setLevel(logging.CRITICAL)
        finally:
            sys.stdout, sys.stderr = so, se
            for h in lg.handlers[:]:
                with contextlib.suppress(Exception):
                    h.close()
            lg.handlers[:] = handlers
            lg.setLevel(level)
            os.chdir(cwd)
            fx.CONFIG.config_name, fx.CONFIG.logging, fx.CONFIG.modeling = keep
            refmodel.EPS, refmodel.BIG = checker.EPS, checker.BIG = consts
        return {'key': json.dumps(keys), 'nontrivial': len(forces) > 1, 'models': len(keys)}


def make(pid):
    return C02(pid)
