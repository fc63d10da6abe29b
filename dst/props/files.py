"""D01-D04: what reaches the disk, and what is read back from it."""
import contextlib
import json
import os
import random
import re
import shutil

import numpy as np

from .. import build, sim, spec as S
from ..sim import HarnessError, SimCrash, Violation
from ..world import (World, differ, has_values, history_system, js, plain, random_answer, random_calc, results_of, snapshot,
                     without_root)
from .base import Prop
from .hist import hash_

GOOD = ('opt', 'vertex', 'early', 'tie')
NAMES = ['A', 'run 1', 'x.y', 'A_results', 'Größe-1', 'a(b)', 'A_data', '2020', 'A.B.C']
SUFFIXES = ('_results.json', '_results_extra.json', '_data.json', '_infos.yaml', '_solver.log')


def good_answers(rng, k=6):
    return [random_answer(rng, 0.0) for _ in range(k)]


def load(root, folder, name):
    """everything saved under a name, as plain data; raises what loading raises"""
    from flixOpt.results import CalculationResults
    path = os.path.join(root, folder)
    x = CalculationResults(name, path)
    ci = without_root(js(plain(x.calculation_infos)), root)
    ci.get('Calculation', {}).pop('Durations', None)
    extra = os.path.join(path, f'{name}_results_extra.json')
    e = None
    if os.path.exists(extra):
        with sim.REAL_IO_OPEN(extra, encoding='utf-8') as f:
            e = plain(json.load(f))
    return x, {'results': plain(x.all_results), 'inputs': plain(x.all_data), 'infos': ci, 'extra': e}


def try_load(root, folder, name):
    try:
        return load(root, folder, name)[1]
    except (SimCrash, HarnessError, Violation):
        raise
    except Exception as e:
        return f'{type(e).__name__}: {str(e)[:100]}'


def sub_spec(sp, cd):
    return sp if cd.get('idx') is None else S.slice_spec(sp, *cd['idx'])


def expected_axis(sp, cd):
    ax = build.expected_axis(sp)
    if cd.get('idx') is not None:
        a, b = cd['idx']
        ax = ax[a:b + 1]
    return ax


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def tv_matches(x, want, n):
    """saved value x (number or list) against a spec value"""
    if x is None:
        return False
    w = S.tv(want, n)
    xs = x if isinstance(x, list) else [x] * n
    return len(xs) == n and all(isinstance(v, (int, float)) and close(v, u) for v, u in zip(xs, w))


# --------------------------------------------------------------------------
# D01
# --------------------------------------------------------------------------

class D01(Prop):
    runs = {'quick': 450, 'thorough': 11000}
    rule = ('a random system, one calculation of a random type (full, sub-horizon, segmented, aggregated) answered by a random accepted answer of a random '
            'solver, saved under a random name; loaded results, inputs, time axis and tables are compared with the results in memory and with the '
            'system specification. Non-trivial: the solve was accepted and saved.')
    measure = 'distinct saved results'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(2, 8), regular=rng.random() < 0.5, long=0.06)
        cd = random_calc(rng, sp, 'A')
        cd['title'] = rng.choice(NAMES)
        how = rng.choice([None, None, None, 'relative', 'default'])
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': [cd], 'answers': good_answers(rng),
                   'folder': 'results' if how == 'default' else rng.choice(['res', 'a/b c', 'out.put']), 'how': how,
                   'as_path': rng.random() < 0.3, 'solver': rng.choice(['highs', 'highs', 'gurobi', 'cplex', 'cbc', 'glpk']), 'tables': rng.randrange(1 << 30)})

    def execute(self, sc, env):
        sp, cd = sc['spec'], sc['calcs'][0]
        env.sim_hours += float(sum(sp['dt']))
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        with w.sim.installed():
            w.build()
            r, _ = w.do({'do': 'model', 'calc': 'A'})
            if r[0] != 'ok':
                return {'skip': 'not modelled', 'key': ''}
            r, calls = w.do({'do': 'solve', 'calc': 'A', 'answers': sc['answers'], 'save': sc['folder'], 'how': sc.get('how'), 'as_path': sc['as_path'],
                               'solver': sc['solver']})
            env.absorb(w.sim)
            if r[0] != 'ok':
                if calls and calls[-1]['x'] is None:
                    return {'skip': 'not solved', 'key': ''}
                raise Violation('save', f'a solved calculation cannot be saved: {r[1:]}')
            mem = results_of(w.calc('A'), cd)
            try:
                x, saved = load(w.root, sc['folder'], cd['title'])
            except Exception as e:
                raise Violation('load', f'saved {cd["kind"]} results cannot be loaded: {type(e).__name__}: {str(e)[:150]}') from e
            flat = mem['arrays'] if cd['kind'] == 'seg' else mem
            d = differ(saved['results'], plain(flat))
            if d:
                raise Violation('results', f'loaded results differ from those of the calculation: {d}')
            if cd['kind'] == 'seg':
                want = {'Individual Results': plain(mem['individual']), 'Skalar Results': plain(mem['scalars'])}
                d = differ(saved['extra'], want)
                if d:
                    raise Violation('results', f'saved extra results differ from those of the calculation: {d}')
            self.axis(sp, cd, x, saved)
            self.infos(sp, cd, saved['infos'], w.calc('A'))
            self.inputs(sp, cd, saved['inputs'])
            k = self.tables(sp, cd, x, flat, random.Random(sc['tables']))
        return {'key': hash_(json.dumps(saved['results'], sort_keys=True)), 'kind': cd['kind'], 'tables': k}

    def axis(self, sp, cd, x, saved):
        want = expected_axis(sp, cd)
        got = np.asarray(x.time_with_end).astype('datetime64[us]')
        if len(got) != len(want) or np.any(got != want):
            raise Violation('time axis', f'loaded time axis {got[:3]}... of length {len(got)}, expected {want[:3]}... of length {len(want)}')
        if np.any(np.asarray(x.time).astype('datetime64[us]') != want[:-1]):
            raise Violation('time axis', 'loaded time steps do not start at the expected times')
        hours = (want[1:] - want[:-1]) / np.timedelta64(1, 'h')
        if len(x.time_intervals_in_hours) != len(hours) or np.any(np.abs(x.time_intervals_in_hours - hours) > 1e-9):
            raise Violation('time axis', f'loaded step lengths {list(x.time_intervals_in_hours)[:4]}, expected {list(hours)[:4]}')

    def infos(self, sp, cd, infos, calc):
        """the description saved next to the results: which calculation, its main results, the network and the configuration"""
        from flixOpt.config import CONFIG
        got = infos['Calculation']
        n = cd['idx'][1] - cd['idx'][0] if cd.get('idx') else 'all'
        kind = {'full': 'FullCalculation', 'seg': 'SegmentedCalculation', 'agg': 'AggregatedCalculation'}[cd['kind']]
        want = {'Name': cd['title'], 'Number of indices': n, 'Calculation Type': kind}
        for k, v in want.items():
            if got.get(k) != v:
                raise Violation('infos', f'saved infos say {k} {got.get(k)!r}, the calculation was {v!r}')
        model = (calc.sub_calculations[0] if cd['kind'] == 'seg' else calc).system_model
        for k, v in (('Main Results', model.main_results), ('Config', CONFIG.to_dict())):
            d = differ(plain(infos['Model'].get(k)), plain(v))
            if d:
                raise Violation('infos', f'saved {k} differ from those of the calculation: {d}')
        nodes = {c['label']: 'Component' for c in sp['comps']} | {b['label']: 'Bus' for b in sp['buses']
                                                                   if any(f['bus'] == b['label'] for c in sp['comps'] for _, f in S.flows_of(c))}
        got = infos['Network']['Nodes']
        if {k: v['class'] for k, v in got.items()} != nodes or any(v['label'] != k for k, v in got.items()):
            raise Violation('network', f'saved nodes are { {k: v["class"] for k, v in got.items()} }, expected {nodes}')
        edges = {}
        for c in sp['comps']:
            for role, f in S.flows_of(c):
                ends = (f['bus'], c['label'])
                edges[f'{c["label"]}__{f["label"]}'] = (f['label'],) + (ends if role == 'in' else ends[::-1])
        got = {k: (v['label'], v['start'], v['end']) for k, v in infos['Network']['Edges'].items()}
        if got != edges:
            bad = sorted(k for k in set(got) | set(edges) if got.get(k) != edges.get(k))[0]
            raise Violation('network', f'saved edge {bad} (label, from, to) is {got.get(bad)}, expected {edges.get(bad)}')

    def inputs(self, sp, cd, data):
        """the inputs that were saved are those of the specification (arrays restricted to the horizon)"""
        q = sub_spec(sp, cd)
        n = q['n']
        arrays = not (cd['kind'] == 'agg' and cd.get('agg_data'))
        std = S.standard_effect(sp)

        def check(where, infos, key, want, default=None):
            if want is None:
                return
            if isinstance(want, list) and not arrays:
                return
            got = infos.get(key, default)
            if isinstance(want, (str, bool)) or isinstance(got, str):
                ok = got == want
            else:
                ok = tv_matches(got, want, n)
            if not ok:
                raise Violation('inputs', f'saved {key} of {where} is {str(got)[:80]}, given was {str(want)[:80]}')

        def effects(where, infos, key, want):
            if want is None:
                return
            got = infos.get(key, {})
            if not isinstance(got, dict):
                got = {std: got}
            norm = S.norm_effects(sp, want)
            if arrays or not any(isinstance(v, list) for v in norm.values()):
                g = {(std if k in ('null', 'None') else k): v for k, v in got.items()}
                for k, v in norm.items():
                    if not tv_matches(g.get(k), v, n):
                        raise Violation('inputs', f'saved {key} of {where} for {k} is {str(g.get(k))[:80]}, given was {str(v)[:80]}')
                if set(g) - set(norm):
                    raise Violation('inputs', f'saved {key} of {where} has extra effects {set(g) - set(norm)}')

        def onoff(where, infos, o):
            if o is None:
                return
            g = infos.get('on_off_parameters', {})
            for a, b in (('hours_min', 'on_hours_total_min'), ('hours_max', 'on_hours_total_max'), ('starts_max', 'switch_on_total_max'),
                         ('on_min', 'consecutive_on_hours_min'), ('on_max', 'consecutive_on_hours_max'),
                         ('off_min', 'consecutive_off_hours_min'), ('off_max', 'consecutive_off_hours_max')):
                check(where, g, b, o.get(a))
            effects(where, g, 'effects_per_switch_on', o.get('eff_switch'))
            effects(where, g, 'effects_per_running_hour', o.get('eff_run'))

        buses = {b['label']: b for b in q['buses']}
        full = {c['label']: c for c in sp['comps']}
        for c in q['comps']:
            ci = data['Components'].get(c['label'])
            if ci is None:
                raise Violation('inputs', f'no saved inputs of {c["label"]}')
            fl = {'in': {f['label']: f for f in ci['inputs']}, 'out': {f['label']: f for f in ci['outputs']}}
            for role, f in S.flows_of(c):
                g = fl[role].get(f['label'])
                where = f'{c["label"]}.{f["label"]}'
                if g is None:
                    raise Violation('inputs', f'flow {where} is not among the saved {role}puts')
                if g['bus']['label'] != f['bus']:
                    raise Violation('inputs', f'flow {where} is saved with bus {g["bus"]["label"]}')
                pen = buses[f['bus']].get('penalty')
                check('bus ' + f['bus'], g['bus'], 'excess_penalty_per_flow_hour', pen)
                # the second input of a transmission takes its size from the first one's investment
                derived = c['kind'] == 'Transmission' and f is c['flows'].get('in2') and isinstance(c['flows']['in1'].get('size'), dict)
                if isinstance(f.get('size'), (int, float)) and not derived:
                    check(where, g, 'size', f['size'])
                elif isinstance(f.get('size'), dict):
                    for a, b in (('fixed', 'fixed_size'), ('min', 'minimum_size'), ('max', 'maximum_size')):
                        if f['size'].get('fixed') is None or a == 'fixed':
                            check(where, g['size'], b, f['size'].get(a), 0 if a == 'min' else None)
                    for a, b in (('fix', 'fix_effects'), ('spec', 'specific_effects'), ('divest', 'divest_effects')):
                        effects(where, g['size'], b, f['size'].get(a))
                check(where, g, 'relative_minimum', f.get('rmin'), 0)
                check(where, g, 'relative_maximum', f.get('rmax'), 1)
                check(where, g, 'fixed_relative_profile', f.get('profile'))
                effects(where, g, 'effects_per_flow_hour', f.get('eff'))
                onoff(where, g, f.get('onoff'))
                for a, b in (('fh_max', 'flow_hours_total_max'), ('fh_min', 'flow_hours_total_min'), ('lf_min', 'load_factor_min'), ('lf_max', 'load_factor_max')):
                    check(where, g, b, f.get(a))
            onoff(c['label'], ci, c.get('onoff'))
            for a, b in (('eta', 'eta'), ('COP', 'COP'), ('spec', 'specific_electricity_demand'), ('eta_th', 'eta_th'), ('eta_el', 'eta_el')):
                if c.get(a) is not None and tv_matches(ci.get(b), full[c['label']].get(a), sp['n']):
                    continue  # these are kept as given, for the whole horizon
                check(c['label'], ci, b, c.get(a))
            if c['kind'] == 'Storage':
                check(c['label'], ci, 'eta_charge', c.get('eta_c'), 1)
                check(c['label'], ci, 'eta_discharge', c.get('eta_d'), 1)
                check(c['label'], ci, 'relative_loss_per_hour', c.get('loss'), 0)
                if not isinstance(c['capacity'], dict):
                    check(c['label'], ci, 'capacity_in_flow_hours', c['capacity'])
                check(c['label'], ci, 'initial_charge_state', c.get('initial'), 0)
                check(c['label'], ci, 'prevent_simultaneous_charge_and_discharge', bool(c.get('prevent', True)), True)
                check(c['label'], ci, 'minimal_final_charge_state', c.get('final_min'))
                check(c['label'], ci, 'maximal_final_charge_state', c.get('final_max'))
            if c['kind'] == 'Transmission':
                check(c['label'], ci, 'relative_losses', c.get('rel_loss'))
                check(c['label'], ci, 'absolute_losses', c.get('abs_loss'))
        for e in q['effects']:
            ei = data['Effects'].get(e['label'])
            if ei is None:
                raise Violation('inputs', f'no saved inputs of effect {e["label"]}')
            for a, b in (('max_op', 'maximum_operation'), ('min_op', 'minimum_operation'), ('max_inv', 'maximum_invest'), ('min_inv', 'minimum_invest'),
                         ('max_total', 'maximum_total'), ('min_total', 'minimum_total'), ('max_ph', 'maximum_operation_per_hour'),
                         ('min_ph', 'minimum_operation_per_hour')):
                check(e['label'], ei, b, e.get(a))
            effects(e['label'], ei, 'specific_share_to_other_effects_operation', e.get('op_share') or None)
            effects(e['label'], ei, 'specific_share_to_other_effects_invest', e.get('inv_share') or None)

    def tables(self, sp, cd, x, mem, rng):
        """tables made from the loaded results show the values at their times with the right signs"""
        axis = expected_axis(sp, cd)
        n = len(axis) - 1
        entries = []
        for c in sp['comps']:
            fl = [(role, c['label'], f) for role, f in S.flows_of(c)]
            entries.append((c['label'], [(-1 if role == 'in' else 1, l, f) for role, l, f in fl]))
            for role, l, f in fl:
                entries.append((f'{l}__{f["label"]}', [(0, l, f)]))
        used = {f['bus'] for c in sp['comps'] for _, f in S.flows_of(c)}
        for b in sp['buses']:
            if b['label'] in used:
                entries.append((b['label'], [(-1 if role == 'out' else 1, c['label'], f) for c in sp['comps'] for role, f in S.flows_of(c) if f['bus'] == b['label']]))
        k = 0
        for label, cols in entries:
            fin, fout = rng.choice([(-1, 1), (-1, 1), (1, -1), (1, 1), (None, 1), (-1, None)])
            thr = rng.choice([1e-5, None, 0.5])
            last = rng.random() < 0.6
            want = {}
            for s, l, f in cols:
                v = np.asarray(mem['Components'][l][f['label']]['flow_rate'], dtype=float)
                if s == 0:
                    want['flow_rate'] = v
                else:
                    fac = fin if s < 0 else fout
                    if fac is not None:
                        want[f'{l}__{f["label"]}'] = v * fac
            if label in {b['label'] for b in sp['buses']}:
                br = mem.get('Buses', {}).get(label, {})
                if 'excess_input' in br and fin is not None:
                    want['Excess Input'] = np.asarray(br['excess_input'], dtype=float) * fin
                if 'excess_output' in br and fout is not None:
                    want['Excess Output'] = np.asarray(br['excess_output'], dtype=float) * fout
            if thr is not None:
                want = {kk: v for kk, v in want.items() if np.any(np.abs(v) > thr)}
            df = x.to_dataframe(label, input_factor=fin, output_factor=fout, threshold=thr, with_last_time_step=last)
            if set(df.columns) != set(want):
                raise Violation('table', f'table of {label} shows {sorted(df.columns)}, expected {sorted(want)}')
            if not want:
                continue
            idx = np.asarray(df.index).astype('datetime64[us]')
            if len(idx) != n + last or np.any(idx != axis[:n + last]):
                raise Violation('table', f'table of {label} has times {idx[:3]}... ({len(idx)}), expected {axis[:3]}... ({n + last})')
            for c_, v in want.items():
                e = np.append(v, v[-1]) if last else v
                g = np.asarray(df[c_], dtype=float)
                if np.any(np.abs(g - e) > 1e-9 * np.maximum(1, np.abs(e))):
                    raise Violation('table', f'table of {label} shows {list(g)[:5]} for {c_}, expected {list(e)[:5]}')
            k += 1
        for c in sp['comps']:
            r = x.component_results.get(c['label'])
            want = {role: sorted(f['label'] for rr, f in S.flows_of(c) if rr == role) for role in ('in', 'out')}
            if r is None or sorted(f.label for f in r.inputs) != want['in'] or sorted(f.label for f in r.outputs) != want['out']:
                raise Violation('elements', f'loaded component {c["label"]} does not have its inputs and outputs')
        if set(x.bus_results) != used:
            raise Violation('elements', f'loaded buses {sorted(x.bus_results)}, expected {sorted(used)}')
        if not {e['label'] for e in sp['effects']} <= set(x.effect_results):
            raise Violation('elements', f'loaded effects {sorted(x.effect_results)}')
        self.elements(sp, cd, x, mem)
        return k

    def elements(self, sp, cd, x, mem):
        """the loaded elements carry their own values and ends"""
        if x.name != cd['title']:
            raise Violation('elements', f'the loaded results are named {x.name!r}, saved as {cd["title"]!r}')
        mem = plain(mem)
        pairs = []
        for c in sp['comps']:
            res = mem['Components'][c['label']]
            r = x.component_results[c['label']]
            pairs.append((c['label'], r, res))
            by = {f.label: f for f in r.inputs + r.outputs}
            for role, f in S.flows_of(c):
                fr = by[f['label']]
                pairs.append((fr.label_full, fr, res[f['label']]))
                if (fr.label_full, fr.component_label, fr.bus_label) != (f'{c["label"]}__{f["label"]}', c['label'], f['bus']):
                    raise Violation('elements', f'loaded flow {f["label"]} of {c["label"]} says it is {fr.label_full} of {fr.component_label} at {fr.bus_label}')
        for b in x.bus_results:
            pairs.append((b, x.bus_results[b], mem.get('Buses', {}).get(b, {})))
        for e in sp['effects']:
            if e['label'] != 'penalty':
                pairs.append((e['label'], x.effect_results[e['label']], mem['Effects'].get(e['label'], {})))
        if 'penalty' in mem['Effects'] and not any(e['label'] == 'penalty' for e in sp['effects']):
            pen = [r for r in x.effect_results.values() if r.label.lower() == 'penalty']
            if len(pen) != 1:
                raise Violation('elements', f'the penalty is not among the loaded effects {sorted(x.effect_results)}')
            pairs.append(('the penalty', pen[0], mem['Effects']['penalty']))
        for name, r, want in pairs:
            for what, got in (('results', r.all_results),) + ((('variables', r.variables),) if hasattr(r, 'variables') else ()):
                d = differ(plain(got), want)
                if d:
                    raise Violation('elements', f'{what} of the loaded {name} differ from those of the calculation: {d}')
            leaves = []

            def walk(v, path):
                for kk, vv in v.items():
                    if isinstance(vv, dict):
                        walk(vv, path + (kk,))
                    else:
                        leaves.append((path + (kk,), vv))
            walk(want, ())
            flat = plain(r.variables_flat)
            if len({'__'.join(p) for p, _ in leaves}) == len(leaves):
                d = differ(flat, {'__'.join(p): v for p, v in leaves})
                if d:
                    raise Violation('elements', f'flat variables of the loaded {name} differ from its results: {d}')


# --------------------------------------------------------------------------
# D02
# --------------------------------------------------------------------------

def resolve(log, f):
    """fault position -> operation number, given the operations of an undisturbed run"""
    idx = list(range(len(log)))
    if f['where'] == 'structure':
        idx = [i for i, (k, _) in enumerate(log) if k not in ('write',)] or idx
    return idx[min(len(idx) - 1, int(f['u'] * len(idx)))]


class D02(Prop):
    runs = {'quick': 140, 'thorough': 3500}
    rule = ('one run saved under a name, then another run (other answer, other calculation type or edited system) is saved under the same name and the process '
            'crashes, is interrupted or meets a write error at several points of the second save; loading afterwards must fail or give one run completely. '
            'Non-trivial: at least one fault struck after the solver had answered.')
    measure = 'distinct (operation struck, fault, what loading gave) histories'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(3, 6), regular=rng.random() < 0.4)
        a, b, o = random_calc(rng, sp, 'A'), random_calc(rng, sp, 'A'), random_calc(rng, sp, 'O')
        o['title'] = rng.choice(['O', 'A_results', 'A_', 'AA'])
        if rng.random() < 0.4:
            b = dict(a)
        sc = {'spec': sp, 'notation': rng.randrange(1 << 30), 'old': a, 'new': b, 'other': o, 'ans_old': good_answers(rng), 'ans_new': good_answers(rng),
              'ans_other': good_answers(rng), 'first': rng.random() < 0.15, 'faults': []}
        if rng.random() < 0.5:
            sc['spec2'] = history_system(rng, n=(sp['n'], sp['n']), regular=True)
            if b['kind'] == 'agg':
                sc['new'] = {'name': 'A', 'kind': 'full'}
            elif len(set(sp['dt'])) > 1 and b['kind'] != 'full':
                sc['new'] = {'name': 'A', 'kind': 'full'}
        for _ in range(rng.randint(3, 6)):
            sc['faults'].append({'where': rng.choice(['any', 'structure', 'structure']), 'u': rng.random(), 'kind': rng.choice(['crash', 'crash', 'crash', 'interrupt', 'enospc', 'eio']),
                                 'frac': rng.choice([0.0, 0.5, rng.random()]), 'again': rng.choice(['old', 'new', 'same', None])})
        return js(sc)

    def candidates(self, sc):
        for i in range(len(sc['faults'])):
            if len(sc['faults']) > 1:
                c = js(sc)
                c['faults'] = [sc['faults'][i]]
                yield c
        if 'spec2' in sc:
            c = js(sc)
            del c['spec2']
            yield c
        if not sc['first']:
            yield dict(js(sc), first=True)

    def save(self, sp, sc, cd, ans, root, env, plan=()):
        """one process: build, model, solve, save -> (status, World)"""
        w = World(sp, sc['notation'], root, calcs=[dict(cd, name='X', title=cd.get('title', cd['name']))])
        with w.sim.installed():
            w.build()
            r, _ = w.do({'do': 'model', 'calc': 'X'})
            if r[0] == 'ok':
                r, _ = w.do({'do': 'solve', 'calc': 'X', 'answers': ans, 'save': 'res', 'fs': list(plan)} if plan else
                            {'do': 'solve', 'calc': 'X', 'answers': ans, 'save': 'res'})
        env.absorb(w.sim)
        return r, w

    def execute(self, sc, env):
        sp, sp2 = sc['spec'], sc.get('spec2', sc['spec'])
        env.sim_hours += float(sum(sp['dt']))
        r0 = env.dir()
        jobs = {'old': (sp, sc['old'], sc['ans_old']), 'new': (sp2, sc['new'], sc['ans_new']), 'other': (sp, sc['other'], sc['ans_other'])}
        oname = sc['other'].get('title', 'O')
        r, _ = self.save(sp, sc, sc['other'], sc['ans_other'], r0, env)
        if r[0] != 'ok':
            return {'skip': 'other run not saved', 'key': ''}
        empty = env.dir()
        shutil.rmtree(empty)
        shutil.copytree(r0, empty)
        r, _ = self.save(*self.args(sc, jobs['old']), r0, env)
        if r[0] != 'ok':
            return {'skip': 'old run not saved', 'key': ''}
        r1 = env.dir()
        shutil.rmtree(r1)
        shutil.copytree(empty if sc['first'] else r0, r1)
        r, w = self.save(*self.args(sc, jobs['new']), r1, env)
        if r[0] != 'ok':
            return {'skip': 'new run not saved', 'key': ''}
        log = list(w.sim.fs.log)
        full = {'old': try_load(r0, 'res', 'A'), 'new': try_load(r1, 'res', 'A'), 'other': try_load(r0, 'res', oname)}
        for k, v in full.items():
            if isinstance(v, str):
                raise Violation('load', f'completely saved run cannot be loaded: {v}')
        if sc['first']:
            full['old'] = None
        hist, struck = [], 0
        for f in sc['faults']:
            rk = env.dir()
            shutil.rmtree(rk)
            shutil.copytree(empty if sc['first'] else r0, rk)
            at = resolve(log, f)
            r, w = self.save(*self.args(sc, jobs['new']), rk, env, [{'at': at, 'kind': f['kind'], 'frac': f['frac']}])
            what = f'{f["kind"]} at operation {at} of {len(log)} ({log[at][0]} {log[at][1]})'
            if not w.sim.fs.fired:
                raise HarnessError(f'fault was not reached: {what}')
            calls = w.sim.solver.calls
            struck += bool(calls and calls[-1]['x'] is not None)
            got = self.judge(full, rk, oname, what, r)
            hist.append((log[at][0], re.sub(r'^res/', '', log[at][1]), f['kind'], got))
            again = f.get('again')
            if again == 'same' and f['kind'] != 'crash' and 'X' in w.calcs:  # the same session saves once more
                with w.sim.installed():
                    w.sim.fs.fired = []
                    r, _ = w.do({'do': 'solve', 'calc': 'X', 'answers': sc['ans_new'], 'save': 'res'})
                again = 'new'
            elif again in ('old', 'new') and not (again == 'old' and sc['first']):
                r, _ = self.save(*self.args(sc, jobs[again]), rk, env)
            else:
                continue
            if r[0] != 'ok':
                raise Violation('save again', f'after {what} saving again fails: {r[1:]}')
            g = try_load(rk, 'res', 'A')
            if isinstance(g, str) or differ(g, full[again]):
                raise Violation('save again', f'after {what} and saving again loading gives {g if isinstance(g, str) else differ(g, full[again])}')
            left = [x for x in snapshot(rk) if os.path.basename(x).startswith('A_') and not x.endswith(SUFFIXES) and oname not in x]
            if left and f['kind'] != 'crash':
                raise Violation('left over', f'after {what} and saving again there are left-over files {left}')
        return {'key': hash_(json.dumps(hist)), 'nontrivial': struck > 0, 'history': hist, 'operations': len(log)}

    def args(self, sc, job):
        return job[0], sc, job[1], job[2]

    def judge(self, full, rk, oname, what, r):
        g = try_load(rk, 'res', 'A')
        o = try_load(rk, 'res', oname)
        d = o if isinstance(o, str) else differ(o, full['other'])
        if d:
            raise Violation('other run', f'after {what} the run saved as {oname} is affected: {d}')
        if isinstance(g, str):
            return 'fails'
        ds = {}
        for k in ('old', 'new'):
            if full[k] is not None:
                ds[k] = differ(g, full[k])
                if ds[k] is None:
                    if r[0] == 'ok' and k == 'old' and differ(full['new'], full['old']):
                        raise Violation('lost', f'after {what} saving returned normally, but loading gives the earlier run')
                    return k
        raise Violation('mixture', f'after {what} loading gives neither run: ' + '; '.join(f'differs from the {k} one in {v}' for k, v in ds.items()))


# --------------------------------------------------------------------------
# D03
# --------------------------------------------------------------------------

WRITERS = ['save', 'fs_json', 'comp_json', 'net_fs', 'net_res', 'plot', 'plot', 'storage', 'heat', 'save', 'agg_plot']


def normal_bytes(b):
    """file content without random ids"""
    if b[:4] == b'\x89PNG':
        return b
    t = b.decode('utf-8', 'replace')
    t = re.sub(r'[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}', '<id>', t)
    t = re.sub(r'(?m)^(\s*)(modeling|solving|saving|aggregation): .*$', r'\1\2: -', t)
    return t.encode()


_WARM = []


def warm(root):
    """plotting libraries read their own resources on first use: do that once, outside of the simulation"""
    if _WARM:
        return
    _WARM.append(1)
    import matplotlib.pyplot as plt
    import pandas as pd
    import plotly.offline
    from pyvis.network import Network
    from flixOpt import plotting
    df = pd.DataFrame({'a': [1.0, 2.0, 3.0], 'b': [0.0, -1.0, 2.0]}, index=pd.date_range('2020', periods=3, freq='h'))
    path = os.path.join(root, 'w.html')
    old, hooks = os.getcwd(), plotly.offline.plot
    os.chdir(root)
    try:
        for m in ('bar', 'line', 'area'):
            plotting.with_plotly(df, m, save=True, path=path)
        for m in ('bar', 'line'):
            plotting.with_matplotlib(df, m, path=os.path.join(root, 'w.png'))
        heat = plotting.heat_map_data_from_df(df[['a']], 'D', 'h', 'ffill')
        plotting.heat_map_plotly(heat, save=True, path=path)
        plotting.heat_map_matplotlib(heat, path=os.path.join(root, 'w.png'))
        hooks(plotting.with_plotly(df, 'bar'), filename=path, auto_open=False)
        net = Network()
        net.add_node('a')
        net.write_html('n.html')
    finally:
        os.chdir(old)
        plt.close('all')


class D03(Prop):
    runs = {'quick': 160, 'thorough': 4000}
    rule = ('results are saved, systems and components exported to JSON, networks and operation plots (plotly and matplotlib) written, with a disk error at a '
            'random file operation or into a missing folder; the operation must raise or leave a complete file, and must succeed when repeated. '
            'Non-trivial: a fault struck.')
    measure = 'distinct (writer, operation struck, error, outcome) histories'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(3, 5), regular=True, storage=0.5)
        cd = random_calc(rng, sp, 'A', ('full', 'sub', 'agg', 'seg'))
        ops = []
        for _ in range(rng.randint(2, 3)):
            o = {'writer': rng.choice(WRITERS), 'show': rng.random() < 0.3, 'engine': rng.choice(['plotly', 'plotly', 'matplotlib']),
                 'mode': rng.choice(['bar', 'line', 'area']), 'which': rng.random(), 'abs': rng.random() < 0.5, 'name': rng.choice(['out', 'a b', 'x.y'])}
            q = rng.random()
            if q < 0.12:
                o['missing'] = True
            else:
                o['fault'] = {'where': rng.choice(['any', 'structure', 'structure']), 'u': rng.random(), 'kind': rng.choice(['enospc', 'eio', 'eacces']), 'frac': rng.random()}
            ops.append(o)
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': [cd], 'answers': good_answers(rng), 'ops': ops})

    def candidates(self, sc):
        for i in range(len(sc['ops'])):
            if len(sc['ops']) > 1:
                c = js(sc)
                del c['ops'][i]
                yield c
        yield from super().candidates(sc)

    def writer(self, w, sc, o, x, folder):
        """-> (function, file it is asked to write or None)"""
        sp, B = sc['spec'], w.B
        k = o['writer']
        comps = sp['comps']
        c = comps[min(len(comps) - 1, int(o['which'] * len(comps)))]
        stor = [d for d in comps if d['kind'] == 'Storage']
        if o['show'] and o['engine'] == 'matplotlib':
            o = dict(o, show=False)
        ext = {'fs_json': '.json', 'comp_json': '.json'}.get(k, '.html')
        if k in ('plot', 'heat') and o['engine'] == 'matplotlib':
            ext = '.png'
        path = os.path.join(folder, o['name'] + ext)
        if k == 'save':
            return (lambda: w._do('solve', 'A', {'answers': sc['answers'], 'save': os.path.relpath(folder, w.root)})), None
        if k == 'fs_json':
            return (lambda: B.fs.to_json(path)), path
        if k == 'comp_json':
            return (lambda: B.comps[c['label']].to_json(path)), path
        if k == 'net_fs':
            return (lambda: B.fs.visualize_network(path, show=o['show'])), path
        if k == 'net_res':
            return (lambda: x.visualize_network(path, show=o['show'])), path
        if k == 'storage' and stor:
            return (lambda: x.plot_storage(stor[0]['label'], mode=o['mode'], show=o['show'], save=True, path=path)), path
        if k == 'agg_plot':
            import pandas as pd
            from flixOpt import plotting
            df = pd.DataFrame({'a': [1.0, 2.0, 3.0], 'b': [0.0, -1.0, 2.0]})
            return (lambda: plotting.with_plotly(df, o['mode'], show=o['show'], save=True, path=path)), path
        if k == 'heat':
            lab = f'{c["label"]}__{S.flows_of(c)[0][1]["label"]}'
            return (lambda: x.plot_operation(lab, 'heatmap', heatmap_periods='D', heatmap_steps_per_period='15min', engine=o['engine'],
                                             show=o['show'], save=True, path=path)), path
        mode = o['mode'] if o['engine'] == 'plotly' or o['mode'] != 'area' else 'bar'
        return (lambda: x.plot_operation(c['label'], mode, engine=o['engine'], show=o['show'], save=True, path=path)), path

    def files(self, folder):
        res = {}
        for d, _, fs in os.walk(folder):
            for f in fs:
                with sim.REAL_IO_OPEN(os.path.join(d, f), 'rb') as h:
                    res[os.path.relpath(os.path.join(d, f), folder)] = normal_bytes(h.read())
        return res

    def execute(self, sc, env):
        import matplotlib.pyplot as plt
        warm(env.dir())
        sp, cd = sc['spec'], sc['calcs'][0]
        env.sim_hours += float(sum(sp['dt']))
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        hist, struck = [], 0
        old = os.getcwd()
        os.chdir(w.root)
        try:
            with w.sim.installed():
                w.build()
                if w.do({'do': 'model', 'calc': 'A'})[0][0] != 'ok':
                    return {'skip': 'not modelled', 'key': ''}
                r, _ = w.do({'do': 'solve', 'calc': 'A', 'answers': sc['answers'], 'save': 'first'})
                if r[0] != 'ok':
                    return {'skip': 'not solved', 'key': ''}
                x, _ = load(w.root, 'first', 'A')
                mem = plain(results_of(w.calc('A'), cd))
                for i, o in enumerate(sc['ops']):
                    ref = os.path.join(w.root, f'ref{i}', 'o')
                    tgt = os.path.join(w.root, f'tgt{i}', 'o')
                    os.makedirs(ref)
                    os.makedirs(tgt)
                    w.sim.fs.log = []
                    fn, path = self.writer(w, sc, o, x, ref)
                    r = w.attempt(fn)
                    plt.close('all')
                    if r[0] != 'ok':
                        hist.append((o['writer'], 'refuses'))
                        continue
                    self.complete(o, path, ref)
                    log = list(w.sim.fs.log)
                    want = {k: v.replace(ref.encode(), b'@') for k, v in self.files(ref).items()}
                    f = o.get('fault')
                    if o.get('missing'):
                        shutil.rmtree(tgt)
                        what = 'a missing folder'
                    else:
                        at = resolve(log, f)
                        w.sim.fs.log = []
                        w.sim.fs.plan = [{'at': at, 'kind': f['kind'], 'frac': f['frac']}]
                        what = f'{f["kind"]} at operation {at} of {len(log)} ({log[at][0]} {os.path.basename(log[at][1])})'
                    fn, path = self.writer(w, sc, o, x, tgt)
                    r = w.attempt(fn)
                    w.sim.fs.plan = []
                    w.sim.fs.fired = []
                    plt.close('all')
                    struck += 1
                    if o.get('missing'):
                        w.sim.count('fault:missing folder:' + o['writer'])
                    hist.append((o['writer'], o.get('engine'), what if o.get('missing') else (log[at][0], f['kind']), r[:2] if r[0] != 'ok' else 'ok'))
                    if r[0] == 'ok':
                        if not os.path.isdir(tgt):
                            raise Violation('silent', f'{o["writer"]} into {what} returns normally, but wrote nothing')
                        got = {k: v.replace(tgt.encode(), b'@') for k, v in self.files(tgt).items()}
                        self.same(o, want, got, f'{o["writer"]} with {what} returns normally, but')
                    elif r[1] not in ('OSError', 'PermissionError', 'FileNotFoundError') and r[0] == 'crash':
                        raise HarnessError('crash in D03')
                    now = plain(results_of(w.calc('A'), cd))
                    # a failing save happens after a new solve with the same answers: results stay the same
                    d = differ(now, mem, 1e-9) if not (o['writer'] == 'save' and r[0] != 'ok') else None
                    if d:
                        raise Violation('results', f'results in memory changed by {o["writer"]} with {what}: {d}')
                    os.makedirs(tgt, exist_ok=True)
                    fn, path = self.writer(w, sc, o, x, tgt)
                    r = w.attempt(fn)
                    plt.close('all')
                    if r[0] != 'ok':
                        raise Violation('later', f'after {o["writer"]} with {what} the same operation fails without fault: {r[1:]}')
                    got = {k: v.replace(tgt.encode(), b'@') for k, v in self.files(tgt).items()}
                    self.same(o, want, got, f'{o["writer"]} repeated after {what}:')
        finally:
            os.chdir(old)
            env.absorb(w.sim)
        return {'key': hash_(json.dumps(hist)), 'nontrivial': struck > 0, 'history': hist}

    def complete(self, o, path, folder):
        if path is not None and not os.path.exists(path):
            raise Violation('silent', f'{o["writer"]} returns normally, but {os.path.basename(path)} does not exist')

    def same(self, o, want, got, text):
        for k, v in want.items():
            if k.endswith('.log'):
                continue
            if k not in got:
                raise Violation('silent', f'{text} {k} does not exist')
            if got[k] != v:
                if o['writer'] == 'save' and k.endswith('.json') is False:
                    continue
                raise Violation('incomplete', f'{text} {k} has {len(got[k])} bytes, a complete one {len(v)}'
                                + ('' if len(got[k]) != len(v) else ' of other content'))


# --------------------------------------------------------------------------
# D04
# --------------------------------------------------------------------------

class D04(Prop):
    runs = {'quick': 300, 'thorough': 7000}
    rule = ('several calculations with related names on one system are modelled, solved, saved to one or two shared folders and read in random order with solver '
            'failures and disk errors; after every operation the whole working directory is compared with before. Non-trivial: at least two '
            'calculations reached the solver and at least one was saved.')
    measure = 'distinct operation outcome sequences'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(3, 6), regular=rng.random() < 0.5)
        titles = rng.sample(['A', 'AA', 'A_results', 'A_1', 'A_data', 'A.json', 'B', 'B c', 'A_results_extra', 'a'], 3)
        defs = []
        for nm, t in zip('ABC', titles):
            d = random_calc(rng, sp, nm)
            d['title'] = t
            defs.append(d)
        ops = []
        for d in defs:
            if rng.random() < 0.9:
                ops.append({'do': 'model', 'calc': d['name']})
        for _ in range(rng.randint(3, 7)):
            d = rng.choice(defs)
            q = rng.random()
            if q < 0.15:
                op = {'do': 'model', 'calc': d['name']}
            elif q < 0.85:
                op = {'do': 'solve', 'calc': d['name'], 'answers': [random_answer(rng, 0.2) for _ in range(5)],
                      'solver': rng.choice(['highs', 'gurobi', 'cplex', 'cbc', 'glpk']), 'logfile': rng.choice(['my.log', 'logs/x.txt', 'A_results.log', None])}
                if rng.random() < 0.6:
                    op['save'] = rng.choice(['res', 'res', 'other/deep'])
                    if rng.random() < 0.3:
                        op['fs'] = [{'at': int(10 ** rng.uniform(0, 2.5)), 'kind': rng.choice(['enospc', 'eio', 'interrupt'])}]
            else:
                op = {'do': rng.choice(['results', 'main', 'infos', 'fsinfos']), 'calc': d['name']}
            ops.append(op)
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': defs, 'ops': ops})

    def candidates(self, sc):
        for i in range(len(sc['ops'])):
            c = js(sc)
            del c['ops'][i]
            yield c
        yield from super().candidates(sc)

    def execute(self, sc, env):
        sp = sc['spec']
        env.sim_hours += float(sum(sp['dt']))
        defs = {c['name']: c for c in sc['calcs']}
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        os.makedirs(os.path.join(w.root, 'logs'))
        for p in ('notes.txt', 'A_results.json', 'None', 'logs/keep.log', 'res/readme.md', 'res/A_plan.json', 'res/results.json', 'other/A_infos.yaml'):
            os.makedirs(os.path.dirname(os.path.join(w.root, p)), exist_ok=True)
            with sim.REAL_IO_OPEN(os.path.join(w.root, p), 'w') as f:
                f.write('user file ' + p)
        old = os.getcwd()
        os.chdir(w.root)
        reached, saves, good = set(), 0, {}
        try:
            with w.sim.installed():
                w.build()
                before = snapshot(w.root)
                for op in sc['ops']:
                    nm = op['calc']
                    r, calls = w.do(op)
                    if w.sim.opened_urls and op['do'] != 'model':
                        raise Violation('shown', f'{op["do"]} opened a browser on {w.sim.opened_urls[:1]}')
                    w.sim.opened_urls.clear()
                    after = snapshot(w.root)
                    changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
                    title = defs[nm]['title']
                    allowed = set()
                    if op['do'] == 'model' and defs[nm]['kind'] == 'agg':
                        allowed.add('temp-plot.html')  # modelling an aggregated calculation shows a plot
                    if op['do'] == 'solve':
                        if defs[nm]['kind'] == 'agg':
                            pass
                        if op.get('save'):
                            allowed |= {os.path.join(op['save'], title + s) for s in SUFFIXES}
                            if r[0] != 'ok':
                                allowed |= {p + '.tmp' for p in allowed}
                        elif op.get('logfile'):
                            allowed.add(op['logfile'])
                    bad = sorted(changed - allowed)
                    if bad:
                        raise Violation('files', f'{op["do"]} of {defs[nm]["kind"]} {title!r}{" with saving to " + op["save"] if op.get("save") else ""} '
                                                 f'({r[0]}) created or changed {bad[:3]}')
                    if calls:
                        reached.add(nm)
                        if not op.get('save') and op.get('logfile') and any(c['mode'] not in ('missing',) for c in calls) and not os.path.exists(op['logfile']):
                            raise Violation('log name', f'the log file {op["logfile"]} asked for was not written')
                        if not op.get('save') and not op.get('logfile') and changed:
                            raise Violation('files', f'solving without log file changed {sorted(changed)}')
                        if any(c['settings'] and c['settings']['kept'] for c in calls):
                            raise Violation('files', f'the temporary files of {op.get("solver")} are kept')
                        for c in calls:
                            want = os.path.join(w.root, op['save'], title + '_solver.log') if op.get('save') else (op.get('logfile') and os.path.join(w.root, op['logfile']))
                            if op.get('logfile') and op.get('solver') != 'highs' or op.get('logfile'):
                                got = c['logfile'] and os.path.abspath(str(c['logfile']))
                                if got != (want and os.path.abspath(want)):
                                    raise Violation('log name', f'the solver was told to log to {got}, expected {want}')
                    if op['do'] == 'solve' and getattr(w, 'solver_obj', None) is not None and op.get('logfile') is not None:
                        if str(w.solver_obj.logfile_name) != os.path.join(w.root, op['logfile']):
                            raise Violation('log name', f'the log file name of the solver object was changed to {w.solver_obj.logfile_name}')
                    key = (op.get('save'), title)
                    if op['do'] == 'solve' and op.get('save'):
                        if r[0] == 'ok':
                            saves += 1
                            tmp = [p for p in after if p.endswith('.tmp')]
                            if tmp and not any(k[1] is None for k in good.values()):
                                mine = [p for p in tmp if os.path.basename(p).startswith(title + '_')]
                                if mine:
                                    raise Violation('files', f'temporary files {mine} are left after saving')
                            good[key] = (try_load(w.root, op['save'], title), True)
                            if isinstance(good[key][0], str):
                                raise Violation('load', f'saved calculation {title} cannot be loaded: {good[key][0]}')
                        else:
                            good.pop(key, None)
                    for (folder, t), (doc, _) in good.items():
                        if (folder, t) != key:
                            g = try_load(w.root, folder, t)
                            d = g if isinstance(g, str) else differ(g, doc)
                            if d:
                                raise Violation('other run', f'{op["do"]} of {title} affects the saved calculation {t}: {d}')
                    before = after
        finally:
            os.chdir(old)
            env.absorb(w.sim)
        return {'key': hash_(json.dumps([w.log, [c['fp'] for c in w.sim.solver.calls]])), 'nontrivial': len(reached) > 1 and saves > 0,
                'history': [l[:3] for l in w.log], 'saves': saves}


def make(pid):
    return {'D01': D01, 'D02': D02, 'D03': D03, 'D04': D04}[pid](pid)
