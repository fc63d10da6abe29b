"""A simulated user session: one flow system, several calculations on it, and a
sequence of operations with faults.  Used by the history properties."""
import contextlib
import hashlib
import json
import os
import pathlib
import random
import re
import sys

import numpy as np

from . import build, gen, sim
from .sim import HarnessError, SimCrash, Violation

TRACE_FILES = ('elements.py', 'features.py', 'math_modeling.py', 'components.py', 'effects.py', 'interface.py', 'linear_converters.py', 'structure.py')
EXC = {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'OSError': OSError}


class CallFault:
    """raises exc at the k-th function call inside flixOpt's modelling files"""

    def __init__(self, k, exc, files=TRACE_FILES):
        self.k, self.exc, self.files = k, EXC[exc], files
        self.seen, self.fired = 0, False

    @staticmethod
    def modelling(frame):
        """only inside modelling: no code can clean up after an interrupt that hits the cleaning up itself"""
        while frame is not None:
            if frame.f_code.co_name in ('do_modeling', 'transform_data', 'translate_to_modeling_language'):
                return True
            frame = frame.f_back
        return False

    def __enter__(self):
        from .run import REPO
        root = REPO + os.sep + 'flixOpt' + os.sep

        def tracer(frame, event, arg):
            if self.fired or event != 'call':
                return None
            fn = frame.f_code.co_filename
            if fn.startswith(root) and os.path.basename(fn) in self.files:
                self.seen += 1
                if self.seen >= self.k and self.modelling(frame):
                    self.fired = True
                    sys.settrace(None)
                    raise self.exc('simulated failure')
            return None
        sys.settrace(tracer)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


SOLVERS = {'highs': 'HighsSolver', 'gurobi': 'GurobiSolver', 'cplex': 'CplexSolver', 'cbc': 'CbcSolver', 'glpk': 'GlpkSolver'}


def make_solver(kind, **kw):
    import flixOpt as fx
    from flixOpt import math_modeling as mm
    cls = getattr(fx.solvers, SOLVERS[kind], None) or getattr(mm, SOLVERS[kind])
    return cls(**kw)


def make_calc(B, cd, fs=None):
    import flixOpt as fx
    fs = fs or B.fs
    idx = None if cd.get('idx') is None else range(*cd['idx'])
    if cd.get('as_list'):
        idx = B.notation.remember(list(idx))
    kind = cd['kind']
    if kind == 'full':
        return fx.FullCalculation(cd.get('title', cd['name']), fs, time_indices=idx)
    if kind == 'seg':
        return fx.SegmentedCalculation(cd.get('title', cd['name']), fs, cd['len'], cd['overlap'], time_indices=idx)
    if kind == 'agg':
        p = fx.AggregationParameters(
            hours_per_period=cd['hours'], nr_of_periods=cd['periods'], fix_storage_flows=cd.get('fix_storage', True),
            aggregate_data_and_fix_non_binary_vars=cd.get('agg_data', False),
            percentage_of_period_freedom=cd.get('freedom', 0), penalty_of_period_freedom=cd.get('freedom_penalty', 0))
        comps = None if cd.get('comps') is None else B.notation.remember([B.comps[l] for l in cd['comps']])
        return fx.AggregatedCalculation(cd.get('title', cd['name']), fs, p, comps, time_indices=idx)
    raise HarnessError(kind)


def results_of(calc, cd):
    if cd['kind'] == 'seg':
        return {'arrays': calc.results(combined_arrays=True), 'scalars': calc.results(combined_scalars=True),
                'individual': calc.results(individual_results=True)}
    return calc.results()


class World:
    """executes operations, never raises for failures of the code under test"""

    def __init__(self, spec, notation=None, root=None, sim_kw=None, calcs=(), share=None):
        self.share = share
        self.spec, self.root = spec, root
        self.sim = sim.Sim(root=root, **(sim_kw or {}))
        self.B = None
        self.notation = notation
        self.defs = {c['name']: c for c in calcs}
        self.calcs = {}
        self.solvers = {}
        self.log = []

    def build(self):
        self.B = build.build(self.spec, None if self.notation is None else random.Random(self.notation),
                             share=None if self.share is None else random.Random(self.share))
        return self

    def attempt(self, fn):
        """-> ('ok', value) | ('exc', type name, message)"""
        try:
            return ('ok', fn())
        except SimCrash as e:
            return ('crash', 'SimCrash', str(e))
        except (HarnessError, Violation):
            raise
        except BaseException as e:
            from .run import RunTimeout
            if isinstance(e, RunTimeout):
                raise
            return ('exc', type(e).__name__, str(e)[:300])

    def calc(self, name):
        if name not in self.calcs:
            self.calcs[name] = make_calc(self.B, self.defs[name])
        return self.calcs[name]

    def fault(self, f):
        if f and f.get('call'):
            return CallFault(f['call'], f['exc'])
        return contextlib.nullcontext()

    def do(self, op):
        """op: {'do': model|solve|run|results|main|describe|infos, 'calc': name, 'answer':…, 'save':…, 'fault':…, 'fs':[…]}"""
        k, name = op['do'], op.get('calc')
        if op.get('fs') and self.sim.fs is not None:
            self.sim.fs.plan = [dict(f) for f in op['fs']]
            self.sim.fs.log = []
        n0 = len(self.sim.solver.calls)

        def run():
            with self.fault(op.get('fault')):
                return self._do(k, name, op)
        res = self.attempt(run)
        if op.get('fs') and self.sim.fs is not None:
            self.sim.fs.plan = []
        f = op.get('fault')
        if f and f.get('call') and res[0] == 'exc' and 'simulated failure' in res[2]:
            self.sim.count('fault:' + f['exc'] + ':modelling')
        self.log.append((k, name, res[0]) + (res[1:2] if res[0] != 'ok' else ()))
        return res, self.sim.solver.calls[n0:]

    def _do(self, k, name, op):
        if k == 'model':
            c = self.calc(name)
            if self.defs[name]['kind'] == 'seg':
                return None
            c.do_modeling()
            return None
        if k == 'solve':
            c = self.calc(name)
            self.sim.solver.script = [dict(a) for a in op.get('answers', [])]
            skw = {} if 'logfile' not in op else {'logfile_name': op['logfile'] and os.path.join(self.root, op['logfile'])}
            if op.get('shared') is not None:  # one solver object for several solves
                shared = self.solvers.setdefault(op['shared'], [])
                if not shared:
                    shared.append(make_solver(op.get('solver', 'highs'), **skw, **op.get('settings', {})))
                s = self.solver_obj = shared[0]
            else:
                s = self.solver_obj = make_solver(op.get('solver', 'highs'), **skw, **op.get('settings', {}))
            save = os.path.join(self.root, op['save']) if op.get('save') else False
            if save and op.get('as_path'):
                save = pathlib.Path(save)
            cwd = os.getcwd()
            if save and op.get('how'):  # relative to the working directory, or the folder used by default
                os.chdir(self.root)
                save = True if op['how'] == 'default' else pathlib.Path(op['save']) if op.get('as_path') else op['save']
            try:
                if self.defs[name]['kind'] == 'seg':
                    c.do_modeling_and_solve(s, save_results=save)
                else:
                    c.solve(s, save_results=save)
            finally:
                self.sim.solver.script = []
                os.chdir(cwd)
            return None
        if k == 'results':
            return results_of(self.calc(name), self.defs[name])
        if k == 'main':
            c = self.calc(name)
            return c.system_model.main_results if self.defs[name]['kind'] != 'seg' else [x.system_model.main_results for x in c.sub_calculations]
        if k == 'describe':
            c = self.calc(name)
            m = c.system_model
            return (m.description_of_variables(), m.description_of_constraints()) if hasattr(m, 'description_of_variables') else str(m)
        if k == 'infos':
            c = self.calc(name)
            return c.system_model.infos
        if k == 'load':
            from flixOpt.results import CalculationResults
            return CalculationResults(op.get('name', name), os.path.join(self.root, op['save']))
        if k == 'fsinfos':
            return self.B.fs.infos()
        if k == 'export':
            return self.B.fs.to_json(os.path.join(self.root, op['path']))
        raise HarnessError(k)


# --------------------------------------------------------------------------
# comparing
# --------------------------------------------------------------------------

def plain(x):
    """results -> comparable plain data"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'M':
            return [str(np.datetime64(v, 'us')) for v in x]
        return [plain(v) for v in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.generic):
        if x.dtype.kind == 'M':
            return str(np.datetime64(x, 'us'))
        return x.item()
    if hasattr(x, 'isoformat'):
        return str(np.datetime64(x, 'us'))
    if isinstance(x, bool) or x is None or isinstance(x, (int, float)):
        return x
    if isinstance(x, str) and re.match(r'\d{4}-\d\d-\d\d[T ]\d\d:\d\d', x):
        return str(np.datetime64(x.replace(' ', 'T'), 'us'))
    return str(x)


def differ(a, b, tol=0.0, path=''):
    """first difference of two plain structures, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f'{path}: keys {sorted(set(a) ^ set(b))[:4]}'
        for k in a:
            d = differ(a[k], b[k], tol, f'{path}/{k}')
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{path}: lengths {len(a)} and {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, tol, f'{path}[{i}]')
            if d:
                return d
        return None
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num):
        if a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(a), abs(b)):
            return None
        return f'{path}: {a!r} and {b!r}'
    if isinstance(a, list) != isinstance(b, list) and isinstance(a if not isinstance(a, list) else b, num):
        # arrays of equal values may be given as a scalar
        li, sc = (a, b) if isinstance(a, list) else (b, a)
        if li and all(isinstance(x, num) and abs(x - sc) <= tol * max(1.0, abs(sc)) for x in li):
            return None
    return None if a == b else f'{path}: {str(a)[:60]!r} and {str(b)[:60]!r}'


def has_values(x, path=()):
    """does a results dictionary present any result value?"""
    if isinstance(x, dict):
        for k, v in x.items():
            if not path and k in ('Time', 'Time intervals in hours'):
                continue
            p = has_values(v, path + (k,))
            if p:
                return p
        return None
    if x is None:
        return None
    if isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            p = has_values(v, path + (i,))
            if p:
                return p
        return None
    if isinstance(x, np.ndarray):
        if x.dtype == object and all(v is None for v in x.ravel()):
            return None
        return path if x.size else None
    if isinstance(x, float) and x != x:
        return None
    if isinstance(x, str):
        return None
    return path


def without_root(x, root):
    """plain data with the run's own folder name replaced"""
    if isinstance(x, dict):
        return {k: without_root(v, root) for k, v in x.items()}
    if isinstance(x, list):
        return [without_root(v, root) for v in x]
    # the run's folders are siblings; files may have been copied from one to another
    return re.sub(re.escape(os.path.dirname(root)) + r'/d\d+(?!\d)', '<root>', x) if isinstance(x, str) else x


def snapshot(root):
    """{relative path: content hash}"""
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with sim.REAL_IO_OPEN(p, 'rb') as h:
                res[os.path.relpath(p, root)] = hashlib.sha256(h.read()).hexdigest()[:16]
    return res


def read_normalised(path):
    """file content without recorded durations"""
    with sim.REAL_IO_OPEN(path, encoding='utf-8') as f:
        t = f.read()
    if path.endswith('.yaml'):
        t = re.sub(r'(?m)^(\s*)(modeling|solving|saving|aggregation): .*$', r'\1\2: -', t)
    return t


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

def history_system(rng, n=(3, 6), regular=False, easy=True, focus=None, **over):
    """a small, mostly feasible system for histories"""
    p = dict(n=n, comps=(1, 4), buses=(1, 2), effects=(1, 3), sparse=0.6, long=0.0)
    if regular:
        p['irregular'] = 0.0
    if easy:
        p.update(penalty=1.0, limits=0.15, fx_limits=0.1)
    p.update(over)
    foci = list(gen.FOCI)
    return gen.feasible_system(rng, focus or rng.choice(foci), keep_infeasible=0.0, tighten_p=0.0, **p)[0]


def windowed(rng, sp):
    """parts of the system act in one part of the horizon only; returns the two parts"""
    n = sp['n']
    k = rng.randint(2, n - 2)

    def cut(node, key, p=0.6):
        v = node.get(key)
        if isinstance(v, dict):
            for x in sorted(v):
                cut(v, x, p)
        elif isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, list) and len(v) == n:
            if rng.random() < p:
                v = v if isinstance(v, list) else [v] * n
                node[key] = [0.0] * k + v[k:] if rng.random() < 0.5 else v[:k] + [0.0] * (n - k)

    for b in sp['buses']:
        cut(b, 'penalty', 0.15)
    for e in sp['effects']:
        cut(e, 'op_share')
    for c in sp['comps']:
        if c['kind'] == 'Transmission' and not c.get('abs_loss') and rng.random() < 0.7:
            c['abs_loss'] = round(rng.uniform(0.1, 1.5), 2)
        for key in ('abs_loss', 'rel_loss', 'loss', 'cs_min'):
            cut(c, key, 0.8)
        for f in c['flows'].values() if isinstance(c['flows'], dict) else []:
            for g in f if isinstance(f, list) else [f]:
                cut(g, 'rmin')
                cut(g, 'eff')
                for key in ('eff_run', 'eff_switch'):
                    if isinstance(g.get('onoff'), dict):
                        cut(g['onoff'], key)
    return [0, k], [k, n]


def has_arrays(node, n):
    if isinstance(node, list):
        return len(node) == n and all(isinstance(x, (int, float)) for x in node) and len(set(node)) > 1 or any(has_arrays(x, n) for x in node)
    if isinstance(node, dict):
        return any(has_arrays(v, n) for k, v in node.items() if k not in ('dt', 'prev'))
    return False


def random_calc(rng, spec, name, kinds=('full', 'sub', 'seg', 'agg')):
    n = spec['n']
    k = rng.choice(kinds)
    cd = {'name': name, 'kind': 'full'}
    if k == 'sub' and n >= 3:
        a = rng.randrange(0, n - 2)
        b = rng.randrange(a + 2, n + 1)
        cd['idx'] = [a, b]
    elif k == 'seg' and n >= 4:
        cd['kind'] = 'seg'
        a, b = 0, n
        if rng.random() < 0.3 and n >= 6:
            a = rng.randrange(0, 2)
            b = n - rng.randrange(0, 2)
            cd['idx'] = [a, b]
        cd['len'] = rng.randint(3, max(3, min(4, b - a)))
        cd['overlap'] = rng.randint(0, min(2, (b - a) - cd['len']))
    elif k == 'agg' and n >= 4 and len(set(spec['dt'])) == 1 and has_arrays(spec, n):
        per = rng.choice([p for p in (1, 2, 3) if n // p >= 2])
        cd['kind'] = 'agg'
        cd['hours'] = float(per * spec['dt'][0])
        cd['periods'] = rng.randint(1, max(1, n // per - 1))
        cd['agg_data'] = rng.random() < 0.5
        cd['fix_storage'] = rng.random() < 0.5
        if rng.random() < 0.3:
            labs = [c['label'] for c in spec['comps']]
            cd['comps'] = sorted(rng.sample(labs, rng.randint(1, len(labs))))
    return cd


BAD = ['infeasible', 'unbounded', 'nosol', 'raise', 'interrupt', 'missing', 'error']


def random_answer(rng, p_bad=0.35, good=('opt', 'vertex', 'early', 'tie')):
    if rng.random() < p_bad:
        return {'mode': rng.choice(BAD)}
    m = rng.choice(good)
    return {'mode': m, 'seed': rng.randrange(1 << 30), 'density': rng.choice([0.2, 0.6])}


def js(x):
    return json.loads(json.dumps(x))
