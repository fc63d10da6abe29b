"""R01: the same script, run again elsewhere, gives the same problem and files.

Every variant of a run happens in a helper process of its own (own string hash
seed, own history) under its own simulated clock, hash salt (object addresses),
memory layout and global random state.
"""
import gc
import json
import os
import re
import subprocess
import sys

from ..sim import HarnessError, Violation
from ..world import World, differ, history_system, js, plain, random_answer, random_calc, read_normalised, without_root
from .base import Prop
from .hist import hash_


def trace(doc, root):
    """run the script of a scenario under one variant -> everything that must not vary"""
    import random

    import numpy as np

    from .. import sim
    v = doc['variant']
    junk = []
    for i in range(v['junk'] % 997):  # another memory layout
        junk.append([object() for _ in range((v['junk'] * 31 + i * 17) % 7)])
    del junk[::2]
    np.random.seed(v['np_seed'])
    random.seed(v['np_seed'])
    w = World(doc['spec'], doc['notation'], root, calcs=doc['calcs'],
              sim_kw={'clock': sim.SimClock(v['clock'], v['step'], v['jumps']), 'hash_salt': v['salt']})
    out = {'ops': [], 'problems': [], 'files': {}, 'console': []}
    w.sim.solver.keep_problems = True
    with w.sim.installed():
        w.build()
        for op in doc['ops']:
            r, calls = w.do(op)
            out['ops'].append([op['do'], r[0]] + (list(r[1:]) if r[0] != 'ok' else []))
            for c in calls:
                o = {k: str(x) for k, x in sorted(c['options'].items())}
                out['problems'].append([c['P'].ordered_fingerprint(), c['P'].names[:3], without_root(o, root), len(c['P'].rows)])
            if op['do'] in ('results', 'main', 'describe', 'fsinfos') and r[0] == 'ok':
                out['ops'][-1].append(hash_(json.dumps(plain(r[1]), sort_keys=False)) if op['do'] != 'results' else plain(r[1]))
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(('.json', '.yaml', '.yml')):
                out['files'][os.path.relpath(p, root)] = read_normalised(p)
            elif not f.endswith('.html'):
                out['files'][os.path.relpath(p, root)] = None
    return json.loads(re.sub(re.escape(os.path.dirname(root)) + r'/d\d+(?!\d)', '<root>', json.dumps(out)))


def server():
    proto = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    from ..run import setup_process
    setup_process()
    for line in sys.stdin:
        doc = json.loads(line)
        os.chdir(doc['root'] + '-cwd')
        try:
            r = {'ok': trace(doc, doc['root'])}
        except BaseException as e:
            import traceback
            r = {'error': f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1200:]}'}
        os.chdir('/')
        gc.collect()
        proto.write(json.dumps(r) + '\n')
        proto.flush()


class Server:
    def __init__(self, hashseed):
        from ..run import VERIF
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, '-m', 'dst.props.determ'], cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True)

    def ask(self, doc):
        try:
            self.p.stdin.write(json.dumps(doc) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ''
        if not line:
            raise HarnessError(f'helper process died ({self.p.poll()})')
        r = json.loads(line)
        if 'error' in r:
            raise HarnessError('helper: ' + r['error'])
        return r['ok']

    def __del__(self):
        try:
            self.p.kill()
            self.p.wait(1)
        except Exception:
            pass


class R01(Prop):
    runs = {'quick': 200, 'thorough': 6000}
    rule = ('a random script (several calculations of all kinds, saving, exporting, reading) runs three times in helper processes with different string hash '
            'seeds, object hash salts, memory layouts, global random states, clock starts, speeds and jumps; problems (in order), results, '
            'descriptions, error messages and the content of all JSON and YAML files are compared. Non-trivial: at least one problem reached the solver.')
    measure = 'distinct sequences of problems in order'

    def generate(self, rng, tier):
        big = rng.random() < 0.3  # enough periods for several clusters with several members
        sp = history_system(rng, n=(8, 10) if big else (3, 7), regular=big or rng.random() < 0.6, effects=(1, 4), comps=(1, 5), buses=(1, 3))
        k = rng.randint(1, 2)
        defs = [random_calc(rng, sp, nm, ('full', 'sub', 'seg', 'agg', 'agg')) for nm in ('A', 'B')[:k]]
        if big:
            for d in defs:
                if d['kind'] == 'agg':
                    d.update(hours=2.0 * sp['dt'][0], periods=rng.randint(1, 3))
        ops = []
        if rng.random() < 0.5:
            ops.append({'do': 'export', 'path': 'sys.json'})
        for d in defs:
            ops.append({'do': 'model', 'calc': d['name']})
            if d['kind'] != 'seg' and rng.random() < 0.5:
                ops.append({'do': 'describe', 'calc': d['name']})
            ans = [random_answer(rng, 0.08) for _ in range(3)]
            op = {'do': 'solve', 'calc': d['name'], 'answers': ans, 'solver': rng.choice(['highs', 'gurobi', 'cplex', 'cbc', 'glpk']), 'logfile': 'own.log'}
            if rng.random() < 0.8:
                op['save'] = 'res'
            ops.append(op)
            ops.append({'do': 'results', 'calc': d['name']})
            if d['kind'] != 'seg':
                ops.append({'do': 'main', 'calc': d['name']})
        if rng.random() < 0.4:
            ops.append({'do': 'fsinfos'})
        if rng.random() < 0.3:
            ops.append({'do': 'export', 'path': 'sys2.json'})
        vs = []
        for i in range(3):
            vs.append({'salt': f's{rng.randrange(1000)}' if i else 's', 'clock': 1.0e9 if i == 0 else rng.choice([1.0, 1.7e9, 4.0e9, 9.5e8]),
                       'step': 0.01 if i == 0 else rng.choice([0.0, 1e-4, 3.7, 1000.0]),
                       'jumps': [] if i == 0 else [[rng.randrange(1, 12), rng.choice([-3600.0, 86400.0, -1e-3, 1e7, -5e6])] for _ in range(rng.randint(0, 3))],
                       'np_seed': rng.randrange(1 << 30), 'junk': rng.randrange(1 << 20), 'hashseed': 0 if i != 1 else rng.randint(1, 2)})
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': defs, 'ops': ops, 'variants': vs})

    def candidates(self, sc):
        if len(sc['variants']) > 2:
            for i in range(1, len(sc['variants'])):
                c = js(sc)
                del c['variants'][i]
                yield c
        for i in range(len(sc['ops'])):
            c = js(sc)
            del c['ops'][i]
            yield c
        base = sc['variants'][0]
        for i in range(1, len(sc['variants'])):
            for k in base:
                if sc['variants'][i][k] != base[k]:
                    c = js(sc)
                    c['variants'][i][k] = base[k]
                    yield c
        if sc.get('notation') is not None:
            c = js(sc)
            c['notation'] = None
            yield c
        for c in super().candidates(sc):
            if c['spec']['n'] == sc['spec']['n']:
                yield c

    servers = None

    def ask(self, sc, v, env):
        if self.servers is None:
            self.servers = {}
        h = v['hashseed']
        if h not in self.servers:
            self.servers[h] = Server(h)
        root = env.dir()
        os.makedirs(root + '-cwd')
        doc = {k: x for k, x in sc.items() if k != 'variants'}
        try:
            return self.servers[h].ask(dict(doc, variant=v, root=root))
        except HarnessError:
            self.servers.pop(h, None)
            raise

    def execute(self, sc, env):
        env.sim_hours += float(sum(sc['spec']['dt'])) * len(sc['variants'])
        outs = [self.ask(sc, v, env) for v in sc['variants']]
        for v in sc['variants']:
            env.counts['fault:clock jump'] += len(v['jumps'])
            env.counts['variant: hash seed %d' % v['hashseed']] += 1
        a = outs[0]
        for v, b in zip(sc['variants'][1:], outs[1:]):
            diff = [k for k in v if v[k] != sc['variants'][0][k]]
            for i, (x, y) in enumerate(zip(a['problems'], b['problems'])):
                if x != y:
                    raise Violation('problem', f'problem {i} handed to the solver depends on {diff}: {differ(x, y)}')
            d = differ(a['ops'], b['ops'])
            if d:
                raise Violation('results', f'outcome or results depend on {diff}: {d}')
            if len(a['problems']) != len(b['problems']):
                raise Violation('problem', f'{len(a["problems"])} and {len(b["problems"])} problems, depending on {diff}')
            if list(a['files']) != list(b['files']) and sorted(a['files']) != sorted(b['files']):
                raise Violation('files', f'other files, depending on {diff}: {sorted(set(a["files"]) ^ set(b["files"]))}')
            for f in a['files']:
                if a['files'][f] != b['files'][f]:
                    x, y = a['files'][f], b['files'][f]
                    k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    raise Violation('files', f'{f} depends on {diff}: …{x[max(0, k - 40):k + 40]!r} and …{y[max(0, k - 40):k + 40]!r}')
        return {'key': hash_(json.dumps([p[0] for p in a['problems']])), 'nontrivial': bool(a['problems']), 'files': len(a['files']),
                'ops': [o[:2] for o in a['ops']]}


def make(pid):
    return R01(pid)


if __name__ == '__main__':
    server()
