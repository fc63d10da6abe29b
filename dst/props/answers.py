"""V01: bad and early solver answers; V02: answers off by the solver's tolerance; V03: the settings of solver objects."""
import json
import os
import re

import numpy as np

from .. import sim
from ..sim import HarnessError, Violation
from ..world import BAD, World, differ, has_values, history_system, js, plain, random_calc, snapshot
from .base import Prop
from .hist import hash_

SOLVER_KINDS = ('highs', 'gurobi', 'cplex', 'cbc', 'glpk')
EARLY_TC = {'highs': ['maxTimeLimit', 'maxIterations', 'objectiveLimit', 'interrupted', 'unknown'],
            'other': ['maxTimeLimit', 'maxIterations', 'maxEvaluations', 'userInterrupt', 'feasible', 'other', 'unknown', 'resourceInterrupt']}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (str(k),))
    elif isinstance(x, list) and any(isinstance(v, (dict, list)) for v in x):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


class V01(Prop):
    runs = {'quick': 600, 'thorough': 14000}
    rule = ('full, sub-horizon, segmented and aggregated calculations with all five solver classes on top of simulated back ends that refuse, crash, '
            'report infeasible or unbounded, stop without a solution, are interrupted, or stop early with a solution under every termination condition; '
            'optionally after an earlier successful and saved run. Non-trivial: the bad or early answer was delivered.')
    measure = 'distinct (kind of calculation, solver class, answer, earlier run, problem) tuples'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(3, 7), regular=rng.random() < 0.5)
        cd = random_calc(rng, sp, 'A', rng.choice([('full',), ('sub',), ('seg',), ('agg',)]))
        kind = rng.choice(SOLVER_KINDS)
        if rng.random() < 0.65:
            bad = {'mode': rng.choice(BAD)}
        else:
            bad = {'mode': 'early', 'seed': rng.randrange(1 << 30), 'density': rng.choice([0.2, 0.6]), 'aborted': rng.random() < 0.5,
                   'tc': rng.choice(EARLY_TC['highs' if kind == 'highs' else 'other'])}
        at = rng.randrange(0, 3) if cd['kind'] == 'seg' else 0
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': [cd], 'solver': kind, 'bad': bad, 'at': at,
                   'earlier': rng.choice([None, 'same', 'other']), 'save': rng.random() < 0.75, 'again': rng.random() < 0.3})

    def candidates(self, sc):
        for k, v in (('earlier', None), ('save', False), ('again', False), ('at', 0), ('notation', None)):
            if sc.get(k) != v:
                c = js(sc)
                c[k] = v
                yield c
        for c in super().candidates(sc):
            if c['spec']['n'] == sc['spec']['n']:
                yield c

    def execute(self, sc, env):
        sp, cd = sc['spec'], sc['calcs'][0]
        env.sim_hours += float(sum(sp['dt']))
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        w.sim.solver.keep_problems = True
        key = [cd['kind'], sc['solver'], sc['bad'].get('tc', sc['bad']['mode']), sc['earlier'], sc['at']]
        with w.sim.installed():
            w.build()
            if sc['earlier']:
                w.do({'do': 'model', 'calc': 'A'})
                r, _ = w.do({'do': 'solve', 'calc': 'A', 'save': 'res', 'solver': 'highs'})
                if r[0] != 'ok':
                    return {'skip': 'no answer to the first run', 'key': ''}
                if sc['earlier'] == 'other':  # the same name in a new calculation object
                    w.calcs.clear()
            if not (sc['earlier'] == 'same' and cd['kind'] != 'seg'):
                r, _ = w.do({'do': 'model', 'calc': 'A'})
                if r[0] != 'ok':
                    return {'skip': 'modelling refused', 'key': ''}
            for turn in range(2 if sc['again'] else 1):
                before = snapshot(w.root)
                w.sim.capture.records.clear()
                op = {'do': 'solve', 'calc': 'A', 'solver': sc['solver'], 'logfile': 'own.log',
                      'answers': [{'mode': 'opt'}] * sc['at'] + [sc['bad']]}
                if sc['save']:
                    op['save'] = 'res'
                r, calls = w.do(op)
                if not calls:
                    raise Violation('exception', f'the solver was never reached: {r[1:]}')
                hit = len(calls) > sc['at'] and calls[sc['at']]['mode'] == sc['bad']['mode']
                early = [c for c in calls if c['outcome'] not in ('optimal',)]
                res, _ = w.do({'do': 'results', 'calc': 'A'})
                main, _ = w.do({'do': 'main', 'calc': 'A'})
                after = snapshot(w.root)
                dead = any(c['x'] is None for c in calls)
                what = f'{sc["solver"]} answers {calls[-1]["outcome"] if dead else sc["bad"]} in a {cd["kind"]} calculation'
                if dead:
                    if r[0] == 'ok':
                        raise Violation('success', f'{what}: solving returns normally')
                    for nm, x in (('results', res), ('main results', main)):
                        p = has_values(plain(x[1])) if x[0] == 'ok' else None
                        if p and not (cd['kind'] == 'seg'):
                            raise Violation('values', f'{what}: {nm} present a value at {p}')
                    if cd['kind'] == 'seg' and res[0] == 'ok':  # only segments that were solved may show anything
                        x = plain(res[1])
                        good = sum(c['x'] is not None for c in calls)
                        shown = {'arrays': x['arrays'], 'scalars': x['scalars'],
                                 'individual': [v for i, v in enumerate(x['individual'].values()) if i >= good]}
                        for nm, y in shown.items():
                            for z in (y if isinstance(y, list) else [y]):
                                p = has_values(z)
                                if p:
                                    raise Violation('values', f'{what} after {good} good ones: {nm} of the unfinished run present a value at {p}')
                    ch = [k for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k) and not k.endswith('.log')]
                    if ch:
                        raise Violation('files', f'{what}: saved files changed: {ch[:4]}')
                else:
                    if r[0] != 'ok':
                        raise Violation('refused', f'{what}: a solution was delivered but solving raises {r[1:]}')
                    self.delivered(w, sc, cd, calls, early, res, main, what)
        env.absorb(w.sim)
        key.append(calls[-1]['fp'])
        return {'key': hash_(json.dumps(key)), 'nontrivial': hit, 'kind': cd['kind'], 'answer': sc['bad'], 'end': r[:2] if r[0] != 'ok' else 'ok'}

    def delivered(self, w, sc, cd, calls, early, res, main, what):
        if res[0] != 'ok':
            raise Violation('results', f'{what}: results cannot be read: {res[1:]}')
        mains = main[1] if isinstance(main[1], list) else [main[1]]
        for i, (c, m) in enumerate(zip(calls, mains)):
            v = c['P'].objective_value(c['x'])
            if differ(plain(m['Objective']), v, 1e-6):
                raise Violation('objective', f'{what}: the delivered solution {i} has objective {v:.8g}, reported is {m["Objective"]:.8g}')
            if differ(plain(m['lower bound']), c['bound'], 1e-6):
                raise Violation('bound', f'{what}: the solver proved a bound of {c["bound"]:.8g} for solve {i}, reported is {m["lower bound"]}')
        if cd['kind'] != 'seg' and differ(plain(res[1]['Objective']), calls[0]['P'].objective_value(calls[0]['x']), 1e-6):
            raise Violation('objective', f'{what}: reported objective {res[1]["Objective"]} is not that of the delivered solution')
        if not early:
            return
        warned = [m for m in w.sim.capture.warnings() if re.search(r'optimal|terminat|status', m, re.I)]
        if len(warned) < len(early):
            raise Violation('no warning', f'{what}: {len(early)} early stops, {len(warned)} warnings: {w.sim.capture.warnings()[:3]}')
        if calls[-1]['outcome'] != 'optimal':
            msg = str(w.solver_obj.termination_message)
            if msg == 'optimal' or msg in ('None', ''):
                raise Violation('optimal', f'{what}: termination message is {msg!r}')
        if sc['save'] and cd['kind'] != 'seg':
            import yaml
            with sim.REAL_IO_OPEN(os.path.join(w.root, 'res', 'A_infos.yaml'), encoding='utf-8') as f:
                t = f.read()
            if re.search(r'termination_message=\'optimal\'|termination_message: optimal', t):
                raise Violation('optimal', f'{what}: saved infos call it optimal')
            if not re.search(r'termination', t, re.I):
                raise Violation('optimal', f'{what}: saved infos do not tell how the solver ended')


class V02(Prop):
    runs = {'quick': 420, 'thorough': 10000}
    rule = ('the answer to a calculation (full, sub-horizon, segmented, aggregated) is given exactly and, to a second system, off by the numerical '
            'tolerance (binaries by up to 1e-6 on either side, continuous values by 1e-9 relative); all reported values in memory and files are '
            'compared, decisions exactly. Non-trivial: the problem has binaries and the noisy answer was accepted.')
    measure = 'distinct problems with binaries'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(3, 7), regular=rng.random() < 0.6, focus=rng.choice(['M03', 'M05', 'M05', 'M06', 'M04']))
        cd = random_calc(rng, sp, 'A', ('full', 'full', 'sub', 'seg', 'seg', 'agg'))
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': [cd],
                   'answers': [{'mode': rng.choice(['opt', 'vertex']), 'seed': rng.randrange(1 << 30), 'density': 0.5} for _ in range(4)],
                   'noise': rng.randrange(1 << 30), 'tol': rng.choice([1e-6, 1e-7, 4e-6, 1e-9]), 'solver': rng.choice(SOLVER_KINDS),
                   'save': rng.random() < 0.6})

    def candidates(self, sc):
        yield from V01.candidates(self, sc)

    def side(self, sc, env, answers):
        w = World(sc['spec'], sc['notation'], env.dir(), calcs=sc['calcs'])
        w.sim.solver.keep_problems = True
        loaded = None
        with w.sim.installed():
            w.build()
            r, calls = w.do({'do': 'model', 'calc': 'A'})
            if r[0] == 'ok':
                op = {'do': 'solve', 'calc': 'A', 'answers': answers, 'solver': sc['solver'], 'logfile': 'own.log'}
                if sc['save']:
                    op['save'] = 'res'
                r, calls = w.do(op)
            out = {}
            if r[0] == 'ok':
                for k in ('results', 'main'):
                    x, _ = w.do({'do': k, 'calc': 'A'})
                    out[k] = plain(x[1]) if x[0] == 'ok' else x
                if sc['save']:
                    x, _ = w.do({'do': 'load', 'calc': 'A', 'save': 'res'})
                    out['saved'] = plain(x[1].all_results) if x[0] == 'ok' else x
        env.absorb(w.sim)
        return r, calls, out

    def execute(self, sc, env):
        sp, cd = sc['spec'], sc['calcs'][0]
        env.sim_hours += 2 * float(sum(sp['dt']))
        ra, ca, oa = self.side(sc, env, sc['answers'])
        if ra[0] != 'ok':
            return {'skip': 'no accepted answer', 'key': ''}
        eps = sim.EPSILON
        # flow rates at the threshold decide the state before the next segment, sizes are listed as investments above 1e-3
        close = [v for c in ca for n, v in zip(c['P'].names, c['x']) if 'flow_rate' in n and cd['kind'] == 'seg' or 'size' in n or 'excess' in n]
        if any(abs(v - eps) < 1e-5 or abs(v - 1e-3) < 1e-5 for v in close):
            return {'skip': 'a value at the on/off threshold', 'key': ''}
        answers = [{'mode': 'noise', 'given': [float(v) for v in c['x']], 'seed': sc['noise'] + i, 'tol': sc['tol'], 'status': c['outcome']}
                   for i, c in enumerate(ca)]
        rb, cb, ob = self.side(sc, env, answers)
        if rb[0] != 'ok':
            raise Violation('refused', f'with numerical noise of {sc["tol"]} the {cd["kind"]} calculation fails with {rb[1:]}')
        for i, (x, y) in enumerate(zip(ca, cb)):
            d = self.same_problem(x['P'], y['P'])
            if d:
                raise Violation('problem', f'noise in earlier segments changes problem {i}: {d}')
        bins = sum(sum(c['P'].binary) for c in ca)
        # decisions: exactly the integers meant
        binary_leaf = re.compile(r'^(on|off|switchOn|switchOff|isInvested|onSegment|inSegment)', re.I)
        for where in oa:
            la, lb = dict(leaves(oa[where])), dict(leaves(ob[where]))
            if set(la) != set(lb):
                raise Violation('decision', f'{where} present different entries with noise: {sorted(set(la) ^ set(lb), key=str)[:3]}')
            for p, a in la.items():
                b = lb[p]
                if a == b:
                    continue
                av, bv = (a if isinstance(a, list) else [a]), (b if isinstance(b, list) else [b])
                if len(av) != len(bv):
                    raise Violation('quantity', f'{where} {p} has another length with noise')
                for u, v in zip(av, bv):
                    if not isinstance(u, (int, float)) or not isinstance(v, (int, float)):
                        if u != v:
                            raise Violation('decision', f'{where} {p}: {u!r}, with noise {v!r}')
                        continue
                    if p[-1] in ('on', 'off', 'isInvested') and u != v:
                        raise Violation('decision', f'{where} {p}: {u!r}, with noise {v!r}')
                    if abs(u - v) > 2e-5 * max(1.0, abs(u)) and not self.big(sc):
                        raise Violation('quantity', f'{where} {p}: {u!r}, with noise of {sc["tol"]} {v!r}')
        # every binary the solver meant as 0 or 1 is reported as such
        self.integers(sc, ca, ob, cd)
        return {'key': hash_(''.join(c['fp'] for c in ca)), 'nontrivial': bins > 0, 'binaries': bins, 'tol': sc['tol']}

    def big(self, sc):
        return False

    def integers(self, sc, ca, ob, cd):
        for where in ('results', 'saved'):
            for p, v in leaves(ob.get(where) or {}):
                if p and p[-1] in ('on', 'off', 'isInvested'):
                    vs = v if isinstance(v, list) else [v]
                    if any(x is not None and x not in (0, 1) for x in vs):
                        raise Violation('decision', f'{where} {p} is {v}')

    @staticmethod
    def same_problem(a, b):
        if a.names != b.names or len(a.rows) != len(b.rows):
            return 'other variables or rows'
        def near(x, y):
            return x == y or abs(x - y) <= 1e-5 * max(1.0, abs(x))
        for i, n in enumerate(a.names):
            if not near(a.lb[i], b.lb[i]) or not near(a.ub[i], b.ub[i]) or (a.fixed[i] is None) != (b.fixed[i] is None) \
                    or a.fixed[i] is not None and not near(a.fixed[i], b.fixed[i]):
                return f'bounds of {n}: {a.lb[i]}..{a.ub[i]} {a.fixed[i]} and {b.lb[i]}..{b.ub[i]} {b.fixed[i]}'
        for (l1, h1, t1), (l2, h2, t2) in zip(a.rows, b.rows):
            if not near(l1, l2) or not near(h1, h2) or len(t1) != len(t2) or any(i != j or not near(u, v) for (i, u), (j, v) in zip(t1, t2)):
                return f'row {[(a.names[i], u) for i, u in t1][:4]} in {l1}..{h1} and {l2}..{h2}'
        return None


class V03(Prop):
    runs = {'quick': 400, 'thorough': 12000}
    rule = ('one to three solver objects of any of the five classes with random settings serve several calculations (full, sub-horizon, segmented, aggregated) '
            'in random order; every simulated back end needs a random simulated time to prove optimality and stops at the limit it was given, with or without '
            'an incumbent; some refuse. The settings that reach the back end in every solve, the state of the solver objects and what is reported about '
            'every solve are checked. Non-trivial: at least two solves reached a back end.')
    measure = 'distinct sequences of (solver class, settings, outcome)'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(3, 6), regular=rng.random() < 0.5, comps=(1, 3))
        defs = [random_calc(rng, sp, nm, ('full', 'sub', 'seg', 'agg')) for nm in ('A', 'B', 'C')[:rng.randint(1, 3)]]
        solvers = []
        for i in range(rng.randint(1, 3)):
            kind = rng.choice(SOLVER_KINDS)
            s = {}
            if rng.random() < 0.85:
                s['mip_gap'] = rng.choice([0, 0.0001, 0.02, 0.3])
            if kind != 'glpk' and rng.random() < 0.85:
                s['time_limit_seconds'] = rng.choice([1, 30, 1000, 86400])
            if kind == 'highs' and rng.random() < 0.7:
                s['threads'] = rng.choice([1, 2, 8])
            if rng.random() < 0.7:
                s['solver_output_to_console'] = rng.random() < 0.5
            solvers.append({'kind': kind, 'settings': s, 'log': f'own{i}.log'})
        ops = []
        for _ in range(rng.randint(2, 6)):
            d = rng.choice(defs)
            k = rng.randrange(len(solvers))
            ans = []
            for _ in range(4):
                if rng.random() < 0.12:
                    ans.append({'mode': rng.choice(BAD)})
                else:
                    ans.append({'mode': 'timed', 'needs': round(10 ** rng.uniform(-1, 4.5), 2), 'incumbent': rng.random() < 0.75, 'seed': rng.randrange(1 << 30), 'density': 0.5})
            ops.append({'do': 'solve', 'calc': d['name'], 'shared': k, 'answers': ans, 'save': 'res' if rng.random() < 0.35 else None})
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': defs, 'solvers': solvers, 'ops': ops})

    def candidates(self, sc):
        for i in range(len(sc['ops'])):
            if len(sc['ops']) > 1:
                c = js(sc)
                del c['ops'][i]
                yield c
        for i, o in enumerate(sc['ops']):
            if o.get('save'):
                c = js(sc)
                c['ops'][i]['save'] = None
                yield c
        for c in super().candidates(sc):
            if c['spec']['n'] == sc['spec']['n']:
                yield c

    DEFAULTS = {'mip_gap': 0.01, 'time_limit_seconds': 300, 'threads': 4, 'solver_output_to_console': True}  # as documented in the constructors

    def execute(self, sc, env):
        sp = sc['spec']
        env.sim_hours += float(sum(sp['dt']))
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        w.sim.solver.keep_problems = True
        defs = {c['name']: c for c in sc['calcs']}
        key, total, told = [], 0, {}
        with w.sim.installed():
            w.build()
            for nm, cd in defs.items():
                if cd['kind'] != 'seg':
                    w.do({'do': 'model', 'calc': nm})
            for op in sc['ops']:
                s = sc['solvers'][op['shared']]
                want = {'gap': s['settings'].get('mip_gap', self.DEFAULTS['mip_gap']),
                        'console': s['settings'].get('solver_output_to_console', self.DEFAULTS['solver_output_to_console'])}
                if s['kind'] != 'glpk':
                    want['limit'] = s['settings'].get('time_limit_seconds', self.DEFAULTS['time_limit_seconds'])
                if s['kind'] == 'highs':
                    want['threads'] = s['settings'].get('threads', self.DEFAULTS['threads'])
                r, calls = w.do(dict(op, solver=s['kind'], settings=s['settings'], logfile=s['log']))
                total += len(calls)
                who = f'{s["kind"]} solver {op["shared"]} with {s["settings"]} for {defs[op["calc"]]["kind"]} calculation {op["calc"]}'
                for i, c in enumerate(calls):
                    key.append((s['kind'], sorted(s['settings'].items()), c['outcome']))
                    if c['backend'] != s['kind']:
                        raise Violation('settings', f'{who}: solve {i} was done by {c["backend"]}')
                    for k, v in want.items():
                        if c['settings'][k] != v:
                            raise Violation('settings', f'{who}: solve {i} of {len(calls)} runs with {k} {c["settings"][k]!r} instead of {v!r}')
                obj = w.solver_obj
                for k in ('mip_gap', 'time_limit_seconds', 'threads', 'solver_output_to_console'):
                    if hasattr(obj, k) and getattr(obj, k) != s['settings'].get(k, self.DEFAULTS[k]):
                        raise Violation('solver object', f'{who}: {k} of the solver object became {getattr(obj, k)!r}')
                if str(obj.logfile_name) != os.path.join(w.root, s['log']):
                    raise Violation('solver object', f'{who}: the log file name of the solver object became {obj.logfile_name}')
                if calls:
                    c = calls[-1]
                    if c['x'] is None and (obj.objective is not None or obj.termination_message == 'optimal'):
                        raise Violation('solver object', f'{who}: the last solve ended with {c["outcome"]}, the solver object shows {obj.objective}, {obj.termination_message}')
                    if c['x'] is not None and r[0] == 'ok':
                        for a, b in ((obj.objective, c['P'].objective_value(c['x'])), (obj.best_bound, c['bound'])):
                            if a is None or abs(a - b) > 1e-6 * max(1.0, abs(b)):
                                raise Violation('solver object', f'{who}: objective and bound {obj.objective}, {obj.best_bound} are not those of its last solve')
                        if (obj.termination_message == 'optimal') != (c['outcome'] == 'optimal'):
                            raise Violation('solver object', f'{who}: termination message {obj.termination_message} after {c["outcome"]}')
                if any(c.get('stopped') and c['x'] is None for c in calls) and r[0] == 'ok':
                    raise Violation('success', f'{who}: the time limit was reached without a solution, but solving returns normally')
                told[op['calc']] = (who, r, calls)
                # what is reported about the latest solve of every calculation
                for nm, (owner, r2, calls2) in told.items():
                    if r2[0] != 'ok' or not calls2:
                        continue
                    mn, _ = w.do({'do': 'main', 'calc': nm})
                    ms = mn[1] if isinstance(mn[1], list) else [mn[1]]
                    for i, (c, m) in enumerate(zip(calls2, ms)):
                        if mn[0] != 'ok' or differ(plain(m['lower bound']), c['bound'], 1e-6) or differ(plain(m['Objective']), c['P'].objective_value(c['x']), 1e-6):
                            raise Violation('reported', f'{owner}: solve {i} had objective {c["P"].objective_value(c["x"]):.8g} and bound {c["bound"]:.8g}, '
                                            f'reported after a solve of {op["calc"]}: {m["Objective"]}, {m["lower bound"]}')
                if op.get('save') and r[0] == 'ok' and calls:
                    with sim.REAL_IO_OPEN(os.path.join(w.root, 'res', op['calc'] + '_infos.yaml'), encoding='utf-8') as f:
                        t = f.read()
                    gaps = re.findall(r'mip_gap=([^,]+),', re.sub(r'\s+', ' ', t))
                    if any(float(g) != want['gap'] for g in gaps):
                        raise Violation('reported', f'{who}: the saved infos tell of gaps {gaps}')
        env.absorb(w.sim)
        return {'key': hash_(json.dumps(key)), 'nontrivial': total >= 2, 'solves': total, 'sequence': key[:6]}


def make(pid):
    return {'V01': V01, 'V02': V02, 'V03': V03}[pid](pid)
