"""H01, H02, S02: sequences of operations on one flow system."""
import json
import random

from .. import build, sim
from ..sim import HarnessError, Violation
from ..world import World, differ, has_values, history_system, js, plain, random_answer, random_calc, snapshot, windowed, without_root
from .base import Prop


def random_ops(rng, defs, length, save_p=0.2, fault_p=0.3, reads=True):
    ops = []
    names = list(defs)
    for _ in range(length):
        nm = rng.choice(names)
        q = rng.random()
        if q < 0.38:
            op = {'do': 'model', 'calc': nm}
        elif q < 0.8 or not reads:
            op = {'do': 'solve', 'calc': nm, 'answers': [random_answer(rng) for _ in range(4 if defs[nm]['kind'] == 'seg' else 1)]}
            if defs[nm]['kind'] == 'seg':  # mostly get into later segments
                for i in range(rng.randint(0, 3)):
                    op['answers'][i] = {'mode': 'opt'}
            if rng.random() < save_p:
                op['save'] = 'res'
                if rng.random() < 0.4:
                    op['fs'] = [{'at': rng.randrange(0, 60), 'kind': rng.choice(['enospc', 'eio', 'interrupt'])}]
        else:
            op = {'do': rng.choice(['results', 'main', 'infos', 'fsinfos']), 'calc': nm}
        if op['do'] in ('model', 'solve') and rng.random() < fault_p and (op['do'] == 'model' or defs[nm]['kind'] == 'seg'):
            op['fault'] = {'call': int(10 ** rng.uniform(0, 3.3)), 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
        ops.append(op)
        if op['do'] == 'model' and 'fault' not in op and rng.random() < 0.6:
            ops.append({'do': 'solve', 'calc': nm, 'answers': [random_answer(rng)]})
    return ops


def refused_calc(rng, sp, name):
    """a calculation that is refused when it is made or modelled, or that fails midway"""
    n = sp['n']
    k = rng.choice(['beyond', 'beyond', 'agg', 'agg', 'agg hours', 'seg short', 'seg long', 'seg beyond'])
    if k == 'beyond':
        return {'name': name, 'kind': 'full', 'idx': [rng.randrange(0, n), n + rng.randint(1, 2)]}
    if k.startswith('agg'):
        return {'name': name, 'kind': 'agg', 'hours': float(sp['dt'][0]) * (2 if k == 'agg' else rng.choice([0.3, 1.5, 2 * n])), 'periods': rng.choice([2, 50]),
                'agg_data': rng.random() < 0.5, 'fix_storage': True}
    if k == 'seg beyond':
        return {'name': name, 'kind': 'seg', 'len': 3, 'overlap': 0, 'idx': [0, n + 2]}
    return {'name': name, 'kind': 'seg', 'len': rng.randint(1, 2) if k == 'seg short' else n + 1, 'overlap': 1}


class H01(Prop):
    runs = {'quick': 420, 'thorough': 9000}
    rule = ('a random sequence of modelling, solving, saving and reading operations of full, sub-horizon, segmented and aggregated calculations, '
            'with solver failures, file errors and interrupts inside modelling, runs on one flow system; a final calculation is compared with the '
            'same calculation on a freshly built system. Non-trivial: at least two operations ran before and the final calculation reached the solver.')
    measure = 'distinct (history outcome sequence, final problem) pairs'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(3, 7), regular=rng.random() < 0.5, focus='M03' if rng.random() < 0.2 else None)
        defs = [random_calc(rng, sp, nm) for nm in ('A', 'B', 'C')[:rng.randint(1, 3)]]
        fin = random_calc(rng, sp, 'F')
        if rng.random() < 0.35:
            defs.append(refused_calc(rng, sp, 'X'))
        ops = random_ops(rng, {d['name']: d for d in defs}, rng.randint(2, 7))
        if sp['n'] >= 4 and rng.random() < 0.3:  # the other part of the horizon first, where other things matter
            parts = list(windowed(rng, sp))
            rng.shuffle(parts)
            defs[0] = {'name': 'A', 'kind': 'full', 'idx': parts[0]}
            fin = {'name': 'F', 'kind': 'full', 'idx': parts[1]}
            ops.insert(0, {'do': 'model', 'calc': 'A'})
        ans = [{'mode': 'opt'}] * 4 if rng.random() < 0.6 else [random_answer(rng, 0.1) for _ in range(4)]
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': defs + [fin], 'ops': ops, 'answers': ans,
                   'reuse': rng.random() < 0.25})

    def candidates(self, sc):
        for i in range(len(sc['ops'])):
            c = js(sc)
            del c['ops'][i]
            yield c
        for i, o in enumerate(sc['ops']):
            for k in ('fault', 'fs', 'save'):
                if k in o:
                    c = js(sc)
                    del c['ops'][i][k]
                    yield c
        if sc.get('notation') is not None:
            c = js(sc)
            c['notation'] = None
            yield c
        for c in super().candidates(sc):
            if c['spec']['n'] == sc['spec']['n']:
                yield c

    def final(self, w, sc):
        name = 'F'
        r1, _ = w.do({'do': 'model', 'calc': name})
        if r1[0] != 'ok':
            return ('model',) + r1[1:], [], None, None
        r2, calls = w.do({'do': 'solve', 'calc': name, 'answers': sc['answers']})
        r3, _ = w.do({'do': 'results', 'calc': name})
        return r2[:2] if r2[0] != 'ok' else ('ok',), calls, r2, (plain(r3[1]) if r3[0] == 'ok' else r3[:2])

    def execute(self, sc, env):
        sp = sc['spec']
        env.sim_hours += float(sum(sp['dt']))
        w1 = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        with w1.sim.installed():
            w1.build()
            for op in sc['ops']:
                w1.do(op)
            a = self.final(w1, sc)
        w2 = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        with w2.sim.installed():
            w2.build()
            b = self.final(w2, sc)
        env.absorb(w1.sim)
        env.absorb(w2.sim)
        hist = [l[:3] for l in w1.log]
        if a[0] != b[0]:
            raise Violation('outcome', f'after {hist} the calculation ends with {a[0]} {a[2] and a[2][1:]}, on a fresh system with {b[0]} {b[2] and b[2][1:]}')
        fa, fb = [c['fp'] for c in a[1]], [c['fp'] for c in b[1]]
        if fa != fb:
            k = next((i for i, (x, y) in enumerate(zip(fa, fb)) if x != y), min(len(fa), len(fb)))
            raise Violation('problem', f'after {hist} problem {k} of {len(fb)} handed to the solver differs from that of a fresh system')
        d = differ(a[3], b[3], 1e-9)
        if d:
            raise Violation('results', f'after {hist} results differ from those on a fresh system: {d}')
        return {'key': str(hash_(json.dumps([l[:4] for l in w1.log]) + ''.join(fb))), 'nontrivial': len(sc['ops']) >= 2 and len(fb) > 0,
                'history': hist, 'final': a[0]}


def hash_(s):
    import hashlib
    return hashlib.sha256(s.encode()).hexdigest()[:16]


class H02(H01):
    runs = {'quick': 420, 'thorough': 9000}
    rule = ('several calculations on one flow system, their modelling, solving, saving and reading operations interleaved at random with solver failures '
            'and file errors; what each calculation reports and what its saved files contain is compared with a session in which only this calculation '
            'exists. Non-trivial: two calculations were modelled and one accepted answer was read back.')
    measure = 'distinct operation outcome sequences with problems'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(3, 6), regular=rng.random() < 0.4)
        k = rng.randint(2, 3)
        defs = [random_calc(rng, sp, nm, ('full', 'sub', 'sub', 'seg', 'agg')) for nm in ('A', 'B', 'C')[:k]]
        dd = {d['name']: d for d in defs}
        ops = []
        for d in defs:
            if rng.random() < 0.85:
                ops.append({'do': 'model', 'calc': d['name']})
        ops += random_ops(rng, dd, rng.randint(3, 7), save_p=0.45, fault_p=0.06)
        if rng.random() < 0.5:
            rng.shuffle(ops)
            ops.sort(key=lambda o: 0 if o['do'] == 'model' and rng.random() < 0.6 else 1)
        if rng.random() < 0.5:  # one solver object for everything
            for o in ops:
                if o['do'] == 'solve':
                    o['shared'] = 0
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': defs, 'ops': ops})

    def solo(self, sc, cd, op, env, cache):
        """the session in which only this solve of this calculation happens"""
        key = json.dumps([cd, {k: v for k, v in op.items() if k not in ('fs', 'fault')}], sort_keys=True)
        if key not in cache:
            w = World(sc['spec'], sc['notation'], env.dir(), calcs=sc['calcs'])
            with w.sim.installed():
                w.build()
                w.do({'do': 'model', 'calc': cd['name']})
                r, _ = w.do({k: v for k, v in op.items() if k not in ('fs', 'fault')})
                main, _ = w.do({'do': 'main', 'calc': cd['name']})
                res, _ = w.do({'do': 'results', 'calc': cd['name']})
                saved = None
                if r[0] == 'ok' and op.get('save'):
                    saved = self.load(w, cd['name'])
            cache[key] = (r, plain(res[1]) if res[0] == 'ok' else None, plain(main[1]) if main[0] == 'ok' else None, saved)
            env.absorb(w.sim)
        return cache[key]

    def load(self, w, name):
        r, _ = w.do({'do': 'load', 'calc': name, 'save': 'res'})
        if r[0] != 'ok':
            return ('exc',) + r[1:]
        x = r[1]
        ci = without_root(js(plain(x.calculation_infos)), w.root)
        ci.get('Calculation', {}).pop('Durations', None)
        return ('ok', plain(x.all_results), plain(x.all_data), ci)

    def execute(self, sc, env):
        sp, cache = sc['spec'], {}
        env.sim_hours += float(sum(sp['dt']))
        defs = {c['name']: c for c in sc['calcs']}
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        state = {}   # name -> None | ('none',) | ('solved', op)
        saved = {}   # name -> op whose files are on disk, or 'unknown'
        read = 0
        with w.sim.installed():
            w.build()
            for op in sc['ops']:
                nm = op['calc']
                r, calls = w.do(op)
                if op['do'] == 'model' and defs[nm]['kind'] != 'seg':
                    state[nm] = ('none',) if r[0] == 'ok' else ('broken',)
                elif op['do'] == 'solve':
                    cd = defs[nm]
                    if cd['kind'] != 'seg' and state.get(nm) in (None, ('broken',)):
                        continue  # solving before modelling
                    solved = bool(calls) and all(c['x'] is not None for c in calls)
                    s = self.solo(sc, cd, op, env, cache)
                    in_solver = any(f[2].endswith('.log') for f in w.sim.fs.fired)
                    if r[0] != 'ok' and in_solver:
                        # the solver itself was disturbed while writing its log: outcome open, but nothing older may show
                        state[nm] = ('either', op)
                        saved[nm] = 'unknown'
                        w.sim.fs.fired = []
                    elif r[0] != 'ok' and not calls and cd['kind'] != 'seg' and w.sim.fs.fired:
                        w.sim.fs.fired = []  # the solver was not reached: the latest solve is still the earlier one
                    elif r[0] != 'ok':
                        if solved and s[0][0] == 'ok' and w.sim.fs.fired and op.get('fs'):
                            state[nm] = ('solved', op)  # only saving failed
                            saved[nm] = 'unknown'
                        elif s[0][0] == 'ok' and not op.get('fault') and not op.get('fs'):
                            raise Violation('outcome', f'{nm}: solving fails with {r[1:]}, but not without the other calculations')
                        else:
                            state[nm] = ('none',)
                            if op.get('fs') and w.sim.fs.fired:
                                saved[nm] = 'unknown'
                        w.sim.fs.fired = []
                    else:
                        w.sim.fs.fired = []
                        if s[0][0] != 'ok':
                            raise Violation('outcome', f'{nm}: solving succeeds, but fails with {s[0][1:]} without the other calculations')
                        state[nm] = ('solved', op)
                        if op.get('save'):
                            saved[nm] = op
                # after every step, what every calculation reports belongs to its own latest solve
                for other in w.calcs:
                    st = state.get(other)
                    if st is None or st == ('broken',):
                        continue
                    res, _ = w.do({'do': 'results', 'calc': other})
                    if st[0] == 'none':
                        p = has_values(res[1]) if res[0] == 'ok' and defs[other]['kind'] != 'seg' else None
                        if p:
                            raise Violation('stale', f'{other} presents the value {p} although its latest solve gave no solution')
                        continue
                    s = self.solo(sc, defs[other], st[1], env, cache)
                    if st[0] == 'either' and (res[0] != 'ok' or defs[other]['kind'] == 'seg' or not has_values(res[1])):
                        continue
                    if res[0] != 'ok':
                        raise Violation('results', f'results of {other} cannot be read after {op["do"]} of {nm}: {res[1:]}')
                    d = differ(plain(res[1]), s[1], 1e-9)
                    if d:
                        raise Violation('results', f'results of {other} after {op["do"]} of {nm} are not those of its latest solve: {d}')
                    if st[0] == 'either':
                        continue
                    mn, _ = w.do({'do': 'main', 'calc': other})
                    d = differ(plain(mn[1]) if mn[0] == 'ok' else None, s[2], 1e-9)
                    if d:
                        raise Violation('main results', f'main results of {other} after {op["do"]} of {nm} are not those of its latest solve: {d}')
                    read += 1
            w.log = [l for l in w.log if l[0] in ('model', 'solve')]
            for nm, op in saved.items():
                if op == 'unknown':
                    continue
                s = self.solo(sc, defs[nm], op, env, cache)
                got = self.load(w, nm)
                if s[3] is None or s[3][0] != 'ok':
                    continue
                if got[0] != 'ok':
                    raise Violation('saved', f'saved files of {nm} cannot be loaded: {got[1:]}')
                for what, x, y in zip(('results', 'inputs', 'infos'), got[1:], s[3][1:]):
                    d = differ(x, y, 1e-9)
                    if d:
                        raise Violation('saved ' + what, f'saved {what} of {nm} are not those of its latest saved solve: {d}')
                read += 1
        env.absorb(w.sim)
        return {'key': hash_(json.dumps([w.log, [c['fp'] for c in w.sim.solver.calls]])), 'nontrivial': read > 0 and len(defs) > 1,
                'history': [l[:3] for l in w.log], 'reads': read}


class S02(H01):
    runs = {'quick': 420, 'thorough': 9000}
    rule = ('segmented calculations that end normally, by a solver failure or interrupt in any segment, by an interrupt inside modelling a segment or by a '
            'file error while saving; afterwards start values are compared with the original ones and a further calculation with one on a fresh '
            'system. Non-trivial: at least one segment was solved before the end.')
    measure = 'distinct (end of the segmented runs, problems) pairs'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(5, 9), regular=True, focus=rng.choice(['M04', 'M05', 'M08']), storage=0.8, prev=0.7, comps=(2, 4))
        n = sp['n']
        if rng.random() < 0.25:
            windowed(rng, sp)
        defs, ops = [], []
        for nm in ('A', 'B')[:rng.randint(1, 2)]:
            L = rng.randint(3, max(3, n - 2))
            d = {'name': nm, 'kind': 'seg', 'len': L, 'overlap': rng.randint(0, min(2, n - L))}
            defs.append(d)
            k = -(-n // L)
            ans = [{'mode': 'opt'} if rng.random() < 0.8 else random_answer(rng, 0.0) for _ in range(k)]
            op = {'do': 'solve', 'calc': nm, 'answers': ans}
            q = rng.random()
            if q < 0.45:
                ans[rng.randrange(k)] = random_answer(rng, 1.0)
            elif q < 0.65:
                op['fault'] = {'call': int(10 ** rng.uniform(1.5, 3.8)), 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
            elif q < 0.85:
                op['save'] = 'res'
                op['fs'] = [{'at': rng.randrange(0, 80), 'kind': rng.choice(['enospc', 'eio', 'interrupt', 'eacces'])}]
            ops.append(op)
        if rng.random() < 0.3:
            ops.append(dict(ops[0]))
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': defs + [random_calc(rng, sp, 'F', ('full', 'sub', 'seg'))], 'ops': ops,
                   'answers': [{'mode': 'opt'}] * 5})

    def starts(self, B):
        import numpy as np
        from .. import spec as S
        out = {}
        for c in B.spec['comps']:
            for _, f in S.flows_of(c):
                p = B.flows[(c['label'], f['label'])].previous_flow_rate
                out[f'{c["label"]}.{f["label"]}'] = None if p is None else (np.asarray(p).tolist())
            if c['kind'] == 'Storage':
                v = B.comps[c['label']].initial_charge_state
                out[c['label']] = v if v is None or isinstance(v, str) else float(np.asarray(v))
        return out

    def execute(self, sc, env):
        sp = sc['spec']
        env.sim_hours += float(sum(sp['dt']))
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        solved = 0
        with w.sim.installed():
            w.build()
            before = self.starts(w.B)
            for op in sc['ops']:
                r, calls = w.do(op)
                solved += sum(c['x'] is not None for c in calls)
                after = self.starts(w.B)
                if after != before:
                    bad = [(k, before[k], after[k]) for k in before if before[k] != after[k]]
                    raise Violation('start values', f'after a segmented run that ended with {r[:3]} {len(bad)} start values changed, e.g. {bad[0]}')
            a = self.final(w, sc)
        w2 = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        with w2.sim.installed():
            w2.build()
            b = self.final(w2, sc)
        env.absorb(w.sim)
        env.absorb(w2.sim)
        ends = [l[2:] for l in w.log]
        if a[0] != b[0]:
            raise Violation('outcome', f'after {ends} the calculation ends with {a[0]} {a[2]}, on a fresh system with {b[0]} {b[2]}')
        if [c['fp'] for c in a[1]] != [c['fp'] for c in b[1]]:
            raise Violation('problem', f'after {ends} the problem handed to the solver differs from that of a fresh system')
        d = differ(a[3], b[3], 1e-9)
        if d:
            raise Violation('results', f'after {ends} results differ from those on a fresh system: {d}')
        return {'key': hash_(json.dumps([w.log, [c['fp'] for c in w.sim.solver.calls]])), 'nontrivial': solved > 0, 'ends': ends}


def make(pid):
    return {'H01': H01, 'H02': H02, 'S02': S02}[pid](pid)
