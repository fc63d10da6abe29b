"""M01-M08: whatever answer the solver gives, reported results obey the stated
rules; and the optimum is that of an independently written model of the system."""
import json
import random

import numpy as np

from .. import build, gen, refmodel, shrink, sim, spec as S
from ..checker import Checker
from ..sim import Violation
from .base import Prop

PATTERN = {
    'M01': r'excess|flow_rate', 'M02': r'flow_rate|sumFlowHours', 'M03': r'flow_rate|[Ss]egment', 'M04': r'charge_state|flow_rate',
    'M05': r'OnOff|_on\[|witch|flow_rate', 'M06': r'[Ii]nvest|size|flow_rate|charge', 'M07': r'sum|flow_rate|Shares|OnOff', 'M08': r'.',
}
CONV = ('Converter', 'Boiler', 'Power2Heat', 'HeatPump', 'CoolingTower', 'CHP', 'HeatPumpWithSource')


def features(sp):
    f = set()
    for c in sp['comps']:
        if c['kind'] in CONV or c['kind'] == 'Transmission':
            f.add('M03')
        if c['kind'] == 'Storage':
            f.add('M04')
        if c.get('onoff') is not None or S.exclusive_groups(c):
            f.add('M05')
        if isinstance(c.get('capacity'), dict):
            f.add('M06')
        for _, fl in S.flows_of(c):
            if any(fl.get(k) is not None for k in ('rmin', 'rmax', 'fh_max', 'fh_min', 'lf_min', 'lf_max')):
                f.add('M02')
            if isinstance(fl.get('size'), dict):
                f.add('M06')
            if fl.get('onoff') is not None:
                f.add('M05')
    if len(sp['effects']) > 1 or any(e.get(k) is not None for e in sp['effects'] for k in shrink.FX_OPT):
        f.add('M07')
    return f


def same(a, b):
    return abs(a - b) <= 1e-5 * max(10.0, abs(a), abs(b))


class M(Prop):
    def __init__(self, pid):
        super().__init__(pid)
        self.fam = pid
        k = {'M08': 1000}.get(pid, 700)
        self.runs = {'quick': k, 'thorough': 25 * k}
        self.rule = (f'random system (focus {pid}) built through the public constructors, modelled and solved through the real calculation; '
                     'the simulated solver answers with the optimum, tied optima, arbitrary feasible vertices, extreme points of single variables '
                     'and early incumbents; every answer is judged by the rules of the property and the optimum by an independent model. '
                     'Non-trivial: the system contains the feature the property is about and at least one answer was accepted.')
        self.measure = 'distinct canonical optimisation problems handed to the solver'
        self.assumptions = ['CONFIG.modeling.EPSILON is set to 1e-3 during simulation so that "on" is a crisp notion',
                            'scipy HiGHS proves optima of small problems; mismatches are confirmed with and without presolve']

    # ------------------------------------------------------------------
    def generate(self, rng, tier):
        for _ in range(12):
            sp = gen.feasible_system(rng, self.fam)[0]
            if self.fam in ('M01', 'M02', 'M07', 'M08') or self.fam in features(sp):
                break
        else:
            return None
        sc = {'spec': sp, 'notation': rng.randrange(1 << 30), 'answers': []}
        for _ in range(3 if self.fam != 'M08' else 1):
            mode = rng.choice(['vertex', 'push', 'push', 'tie', 'early'])
            sc['answers'].append({'mode': mode, 'seed': rng.randrange(1 << 30), 'pattern': PATTERN[self.fam],
                                  'density': rng.choice([0.1, 0.5, 1.0])})
        sc['solver'] = rng.choice(['highs', 'highs', 'gurobi', 'cbc'])
        if self.fam == 'M08':
            sc['variants'] = [{'notation': rng.randrange(1 << 30), 'order': rng.randrange(1 << 30)} for _ in range(2)]
        return sc

    def candidates(self, sc):
        for k in ('answers', 'variants'):
            for i in range(len(sc.get(k, []))):
                c = json.loads(json.dumps(sc))
                del c[k][i]
                yield c
        if sc.get('notation') is not None:
            c = json.loads(json.dumps(sc))
            c['notation'] = None
            yield c
        yield from super().candidates(sc)

    # ------------------------------------------------------------------
    def execute(self, sc, env):
        import flixOpt as fx
        sp = sc['spec']
        rs, rv, _ = refmodel.Ref(sp).solve()
        if rs not in ('optimal', 'infeasible'):
            return {'skip': 'reference undecided', 'key': ''}
        sm = self.new_sim()
        sm.solver.keep_problems = True
        solver_cls = {'highs': fx.solvers.HighsSolver, 'gurobi': fx.solvers.GurobiSolver, 'cbc': fx.solvers.CbcSolver}[sc.get('solver', 'highs')]
        env.sim_hours += float(sum(sp['dt']))
        accepted = 0
        with sm.installed():
            # -- modelling: a system with admissible operation is not refused
            try:
                nrng = None if sc.get('notation') is None else random.Random(sc['notation'])
                B = build.build(sp, nrng)
                calc = fx.FullCalculation('x', B.fs)
                calc.do_modeling()
            except Exception as e:
                if rs == 'infeasible':
                    return {'skip': 'refused infeasible system', 'key': ''}
                raise Violation('refused', f'a system with optimum {rv:.6g} is refused: {type(e).__name__}: {str(e)[:160]}') from e
            P, value = None, None
            try:
                calc.solve(solver_cls())
                value = float(calc.results()['Objective'])
                ok = True
            except Exception as e:
                ok, err = False, f'{type(e).__name__}: {str(e)[:160]}'
            if not sm.solver.calls:
                raise Violation('exception', f'the solver was never reached: {err if not ok else "no call"}')
            rec = sm.solver.calls[-1]
            P = rec['P']
            if rs == 'infeasible':
                if ok and rec['outcome'] == 'optimal' and self.confirm_status(sp, P):
                    raise Violation('admitted', f'a system without admissible operation is solved with objective {value:.6g}')
            elif not ok:
                if rec['outcome'] in ('infeasible', 'unbounded'):
                    if rec['outcome'] == 'unbounded' or self.confirm_status(sp, P):
                        raise Violation('optimum', f'the solver is given an {rec["outcome"]} problem, although the system has the optimum {rv:.6g}')
                elif rec['outcome'] == 'unknown':
                    return {'skip': 'solver undecided', 'key': ''}
                else:
                    raise Violation('exception', f'failed after the solver succeeded: {err}')
            else:
                pv = P.objective_value(rec['x'])
                if not same(pv, rv):
                    a, b = refmodel.Ref(sp).solve_robust(), P.solve_robust()
                    if a[0] == b[0] == 'optimal' and not same(a[1], b[1]):
                        raise Violation('optimum', f'optimum {b[1]:.8g}, but the described system has {a[1]:.8g}')
                    env.counts['solver discrepancy resolved'] += 1
                if not same(value, pv):
                    raise Violation('objective', f'reported objective {value:.8g}, solver objective {pv:.8g}')
            fam = self.rules()
            if ok:
                accepted += 1
                if self.fam == 'M08':
                    self.check_axis(sp, calc)
                env.counts['rules checked'] += Checker(sp, calc.results()).run(fam)
                self.check_main(sp, calc)
            # -- any other answer the solver may give
            for a in sc['answers']:
                sm.solver.script = [dict(a)]
                try:
                    calc.solve(solver_cls())
                except Exception as e:
                    if sm.solver.calls[-1]['outcome'] in ('optimal', 'feasible'):
                        raise Violation('exception', f'failed after the solver succeeded: {type(e).__name__}: {str(e)[:160]}') from e
                    continue
                accepted += 1
                rec2 = sm.solver.calls[-1]
                if self.fam in ('M07', 'M08') and not same(float(calc.results()['Objective']), P.objective_value(rec2['x'])):
                    raise Violation('objective', f'reported objective {calc.results()["Objective"]}, solver objective {P.objective_value(rec2["x"])}')
                env.counts['rules checked'] += Checker(sp, calc.results()).run(fam)
                self.check_main(sp, calc)
            fp = P.fingerprint()
            for v in sc.get('variants', []):
                try:
                    B2 = build.build(sp, random.Random(v['notation']), random.Random(v['order']), random.Random(v['order'] + 1))
                    c2 = fx.FullCalculation('y', B2.fs)
                    c2.do_modeling()
                except Exception as e:
                    raise Violation('variant', f'the same system in another notation or order is refused: {type(e).__name__}: {str(e)[:160]}') from e
                try:
                    c2.solve(solver_cls())
                except Exception:
                    pass
                env.counts['order/notation variants'] += 1
                r2 = sm.solver.calls[-1]
                if r2['fp'] != fp:
                    # not the same rows; the same optimum is what counts
                    a, b = P.solve_robust(), r2['P'].solve_robust()
                    if a[0] != b[0] or (a[0] == 'optimal' and not same(a[1], b[1])):
                        raise Violation('variant', f'the same system in another notation or order has optimum {b[:2]} instead of {a[:2]}')
        env.absorb(sm)
        nontrivial = accepted > 0 and (self.fam in ('M01', 'M02', 'M08') or self.fam in features(sp))
        return {'key': fp + ('' if nontrivial else '-'), 'nontrivial': nontrivial, 'accepted_answers': accepted,
                'reference': rs, 'objective': None if rv is None else round(rv, 6)}

    def new_sim(self):
        return sim.Sim()

    def rules(self):
        return [] if self.fam == 'M08' else [self.fam]

    def confirm_status(self, sp, P):
        """do both sides really disagree about feasibility?"""
        a, b = refmodel.Ref(sp).solve_robust(), P.solve_robust()
        return 'unknown' not in (a[0], b[0]) and a[0] != b[0]

    def check_axis(self, sp, calc):
        r = calc.results()
        exp = build.expected_axis(sp)
        got = np.array([np.datetime64(x, 'us') for x in np.asarray(r['Time']).astype('datetime64[us]')])
        if got.shape != exp.shape or np.any(np.abs((got - exp).astype('int64')) > 1):
            raise Violation('time axis', f'reported times {got[:3]}...{got[-1]} instead of {exp[:3]}...{exp[-1]}')
        dt = np.asarray(r['Time intervals in hours'], float)
        if dt.shape != (sp['n'],) or np.max(np.abs(dt - np.array(sp['dt']))) > 1e-6:
            raise Violation('time axis', f'reported step lengths {dt} instead of {sp["dt"]}')

    def check_main(self, sp, calc):
        """the summary of the solution (main results) says what the results say"""
        if self.fam not in ('M01', 'M06', 'M07'):
            return
        main, r = calc.system_model.main_results, calc.results()
        if self.fam == 'M01':
            want = set()
            for b, res in r['Buses'].items():
                sums = [float(np.sum(res[k])) for k in ('excess_input', 'excess_output') if k in res]
                if any(abs(x - 1e-3) < 1e-6 for x in sums):
                    return
                if any(x > 1e-3 for x in sums):
                    want.add(b)
            if set(main['buses with excess']) != want:
                raise Violation('main results', f'the main results list buses with excess {sorted(main["buses with excess"])}, the results {sorted(want)}')
        elif self.fam == 'M06':
            want = {}
            for c in sp['comps']:
                for _, f in S.flows_of(c):
                    inv = r['Components'][c['label']][f['label']].get('Investment')
                    if inv is not None:
                        want[f'{c["label"]}__{f["label"]}'] = float(inv['size'])
                inv = r['Components'][c['label']].get('Investment')
                if inv is not None:
                    want[c['label']] = float(inv['size'])
            dec = main['Invest-Decisions']
            got = {**dec['invested'], **dec['not invested']}
            if set(got) != set(want) or any(not same(got[k], want[k]) for k in want):
                raise Violation('main results', f'the main results list the sizes {got}, the results {want}')
            for k, v in want.items():
                if v > 1.1e-3 and k not in dec['invested'] or v < 0.9e-3 and k not in dec['not invested']:
                    raise Violation('main results', f'the main results list {k} of size {v} among the wrong decisions')
        else:
            for e in sp['effects']:
                keys = [k for k in main['Effects'] if k in (e['label'], f'{e["label"]} [{e.get("unit")}]')]
                if len(keys) != 1:
                    raise Violation('main results', f'effect {e["label"]} is listed as {keys} in the main results')
                got, res = main['Effects'][keys[0]], r['Effects'][e['label']]
                for k, part, key in (('operation', 'operation', 'operation_sum'), ('invest', 'invest', 'invest_sum'), ('sum', 'all', 'all_sum')):
                    if not same(got[k], float(res[part][key])):
                        raise Violation('main results', f'{k} of effect {e["label"]} is {got[k]} in the main results, {res[part][key]} in the results')
            if not same(main['penalty'], float(r['Effects']['penalty']['penalty_sum'])) or not same(main['Objective'], float(r['Objective'])):
                raise Violation('main results', f'penalty and objective are {main["penalty"]}, {main["Objective"]} in the main results')

    # ------------------------------------------------------------------
    def attribute(self, sc, v, env, foreign_so_far):
        """is a wrong optimum due to the rules of this property?"""
        if self.fam == 'M08' or v.cls not in ('optimum', 'refused', 'exception', 'admitted'):
            return sc, True
        if foreign_so_far >= 2:
            return sc, False

        def fails(s):
            from ..run import guarded
            env.clear()
            try:
                guarded(self, s, env)
            except Violation as w:
                return w.cls == v.cls and (v.cls != 'exception' or w.message[:40] == v.message[:40])
            return False
        sc2, _ = shrink.shrink(sc, fails, self.candidates, budget=45, max_tries=350)
        f = features(sc2['spec'])
        own = self.fam in f or (not f and self.fam in ('M01', 'M02'))
        return sc2, own


def make(pid):
    return M(pid)
