"""H04, S01, A01: sub-horizon, segmented and aggregated calculations."""
import contextlib
import json
import random
import re

import numpy as np

from .. import build, sim, spec as S
from ..sim import HarnessError, Violation
from ..world import World, differ, has_arrays, history_system, js, plain, random_answer, random_calc, results_of, windowed
from .base import Prop
from .hist import hash_


def stamps(x):
    return np.asarray(x).astype('datetime64[us]')


def same_periods(c):
    """keeps the period length in steps when the step length was changed"""
    for cd in c['calcs']:
        if cd.get('per'):
            cd['hours'] = round(cd['per'] * c['spec']['dt'][0], 12)
    return c


def base(name):
    return re.sub(r'\[\d+\]$', '', name)


# --------------------------------------------------------------------------
# H04
# --------------------------------------------------------------------------

class H04(Prop):
    runs = {'quick': 500, 'thorough': 12000}
    rule = ('several calculations on random ranges of the time axis (whole, sub-horizon given as range or list, segmented and aggregated parts) run on one flow '
            'system in random order, partly modelled before others are solved; each problem and each result is compared with a calculation on a '
            'system built from the sliced data only. Non-trivial: at least one proper sub-range was solved.')
    measure = 'distinct (ranges, problems) sequences'

    def generate(self, rng, tier):
        reg = rng.random() < 0.5
        sp = history_system(rng, n=(4, 9), regular=reg, long=0.04)
        n = sp['n']
        defs = []
        for nm in 'ABC'[:rng.randint(1, 3)]:
            a = rng.choice([0, rng.randrange(0, n - 2)])
            b = rng.choice([n, rng.randrange(a + 2, n + 1)])
            cd = {'name': nm, 'kind': 'full', 'idx': [a, b]}
            if b - a >= 4 and rng.random() < 0.25:
                L = rng.randint(3, b - a)
                cd.update(kind='seg', len=L, overlap=rng.randint(0, min(2, b - a - L)))
            elif b - a >= 4 and len(set(sp['dt'])) == 1 and rng.random() < 0.25:
                per = rng.choice([p for p in (1, 2, 3) if (b - a) // p >= 2])
                cd.update(kind='agg', per=per, hours=round(per * sp['dt'][0], 12), periods=(b - a + per - 1) // per, agg_data=rng.random() < 0.5, fix_storage=rng.random() < 0.5)
            elif rng.random() < 0.3:
                cd['as_list'] = True
            defs.append(cd)
        if rng.random() < 0.25:  # things that matter in one part of the horizon only
            for d, part in zip(defs, windowed(rng, sp)):
                if d['kind'] == 'full' and rng.random() < 0.7:
                    d['idx'] = part
        order = [(k, d['name']) for d in defs for k in ('model', 'solve')]
        if rng.random() < 0.5:
            rng.shuffle(order)
            seen, out = set(), []
            for _, nm in order:  # modelling before solving
                out.append(('solve' if nm in seen else 'model', nm))
                seen.add(nm)
            order = out
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': defs, 'order': order})

    def candidates(self, sc):
        for i, d in enumerate(sc['calcs']):
            if len(sc['calcs']) > 1:
                c = js(sc)
                del c['calcs'][i]
                c['order'] = [o for o in c['order'] if o[1] != d['name']]
                yield c
        for c in super().candidates(sc):
            if c['spec']['n'] == sc['spec']['n']:
                yield same_periods(c)

    def execute(self, sc, env):
        sp = sc['spec']
        env.sim_hours += float(sum(sp['dt']))
        defs = {c['name']: c for c in sc['calcs']}
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        fps, proper = [], 0
        with w.sim.installed():
            w.build()
            modelled = set()
            for k, nm in sc['order']:
                cd = defs[nm]
                ops = {'do': k, 'calc': nm}
                if k == 'solve' and nm not in modelled and cd['kind'] != 'seg':
                    w.do({'do': 'model', 'calc': nm})
                modelled.add(nm)
                r, calls = w.do(ops)
                if k == 'model':
                    if r[0] != 'ok' and cd['kind'] != 'agg':
                        q = self.sliced(sc, cd, env)
                        if q[0][0] == 'ok':
                            raise Violation('refused', f'{cd} is refused: {r[1:]}, but the sliced system is not')
                    continue
                q = self.sliced(sc, cd, env)
                if q is None:
                    continue
                if q[0][0] != r[0]:
                    raise Violation('outcome', f'{cd} ends with {r[:3]}, a calculation on the sliced system with {q[0][:3]}')
                a, b = [c['fp'] for c in calls], q[1]
                if a != b:
                    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    raise Violation('problem', f'problem {i} of {cd} differs from that of the sliced system ({len(a)} and {len(b)} problems)')
                fps += a
                if r[0] != 'ok':
                    continue
                res = results_of(w.calc(nm), cd)
                d = differ(plain(res), q[2], 1e-9)
                if d:
                    raise Violation('results', f'results of {cd} differ from those of the sliced system: {d}')
                flat = res['arrays'] if cd['kind'] == 'seg' else res
                want = build.expected_axis(sp)[cd['idx'][0]:cd['idx'][1] + 1]
                got = stamps(flat['Time'])
                if len(got) != len(want) or np.any(np.abs((got - want).astype('int64')) > 1):
                    raise Violation('time axis', f'{cd} reports times {got[:3]}... ({len(got)}), expected {want[:3]}... ({len(want)})')
                proper += cd['idx'] != [0, sp['n']]
        env.absorb(w.sim)
        return {'key': hash_(json.dumps([[c.get('idx') for c in sc['calcs']], fps])), 'nontrivial': proper > 0}

    def sliced(self, sc, cd, env):
        a, b = cd['idx']
        q = S.slice_spec(sc['spec'], a, b)
        c2 = {k: v for k, v in cd.items() if k not in ('idx', 'as_list')}
        w = World(q, sc['notation'], env.dir(), calcs=[c2])
        with w.sim.installed():
            r = w.attempt(w.build)
            if r[0] == 'ok':
                r, _ = w.do({'do': 'model', 'calc': cd['name']})
            calls = []
            if r[0] == 'ok':
                r, calls = w.do({'do': 'solve', 'calc': cd['name']})
            res = plain(results_of(w.calc(cd['name']), c2)) if r[0] == 'ok' else None
        env.absorb(w.sim)
        return r, [c['fp'] for c in calls], res


# --------------------------------------------------------------------------
# S01
# --------------------------------------------------------------------------

class S01(Prop):
    runs = {'quick': 450, 'thorough': 10000}
    rule = ('a segmented calculation with random segment length, overlap and horizon, each segment answered by a random accepted answer; every segment\'s '
            'problem is compared with one on a system sliced to that segment with the start values the previous answer implies, and the joined '
            'trajectory with the owning segments\' values. Non-trivial: at least two segments.')
    measure = 'distinct (segmentation, problems) pairs'

    def generate(self, rng, tier):
        for _ in range(8):
            sp = history_system(rng, n=(4, 12), regular=rng.random() < 0.5, long=0.04, storage=0.75, prev=0.6, comps=(2, 4))
            if not any(isinstance(f.get('size'), dict) for c in sp['comps'] for _, f in S.flows_of(c)) or rng.random() < 0.1:
                break
        n = sp['n']
        if rng.random() < 0.25:
            windowed(rng, sp)
        a, b = 0, n
        if rng.random() < 0.35 and n >= 6:
            a, b = rng.randrange(0, 3), n - rng.randrange(0, 2)
        L = rng.randint(3, min(b - a, 6))
        cd = {'name': 'A', 'kind': 'seg', 'len': L, 'overlap': rng.randint(0, min(3, b - a - L))}
        if (a, b) != (0, n):
            cd['idx'] = [a, b]
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': [cd], 'save': rng.random() < 0.15, 'twice': rng.random() < 0.15,
                   'answers': [random_answer(rng, 0.0) if rng.random() < 0.6 else {'mode': 'opt'} for _ in range(6)]})

    def candidates(self, sc):
        for i in range(len(sc['answers'])):
            if sc['answers'][i]['mode'] != 'opt':
                c = js(sc)
                c['answers'][i] = {'mode': 'opt'}
                yield c
        for k in ('save', 'twice'):
            if sc[k]:
                yield dict(js(sc), **{k: False})
        for c in super().candidates(sc):
            if c['spec']['n'] == sc['spec']['n']:
                yield same_periods(c)

    def execute(self, sc, env):
        sp, cd = sc['spec'], sc['calcs'][0]
        env.sim_hours += float(sum(sp['dt']))
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        w.sim.solver.keep_problems = True
        with w.sim.installed():
            w.build()
            if sc['twice']:
                w.do({'do': 'solve', 'calc': 'A', 'answers': [{'mode': 'opt'}] * 6})
            op = {'do': 'solve', 'calc': 'A', 'answers': sc['answers']}
            if sc['save']:
                op['save'] = 'res'
            r, calls = w.do(op)
            if r[0] == 'ok':
                calc = w.calc('A')
                flat = calc.results(combined_arrays=True)
                parts = calc.results(individual_results=True)
                scalars = calc.results(combined_scalars=True)
                overview = calc.start_values_of_segments
        env.absorb(w.sim)
        a, b = cd.get('idx') or (0, sp['n'])
        L, over, total = cd['len'], cd['overlap'], b - a
        # a rest of a single step belongs to the segment before it
        starts = list(range(0, total, L))
        if len(starts) > 1 and total - starts[-1] == 1:
            starts.pop()
        owned = [(s, starts[i + 1] if i + 1 < len(starts) else total) for i, s in enumerate(starts)]
        ranges = [(s, total if i + 1 == len(starts) else min(total, s + L + over)) for i, s in enumerate(starts)]
        if r[0] != 'ok':
            if not calls or calls[-1]['x'] is None:
                # the problem of the failing segment still has to be the right one
                self.problems(sc, w, calls, a, ranges, owned, env, None)
                return {'skip': 'segment without solution', 'key': ''}
            raise Violation('exception', f'all {len(calls)} segments were solved, but the calculation fails with {r[1:]}')
        if len(calls) != len(owned):
            raise Violation('segments', f'{len(calls)} segments were solved for {total} steps with segment length {L}, expected {len(owned)}')
        parts = [parts[k] for k in parts]
        self.problems(sc, w, calls, a, ranges, owned, env, parts)
        axis = build.expected_axis(sp)[a:b + 1]
        got = stamps(flat['Time'])
        if len(got) != len(axis) or np.any(np.abs((got - axis).astype('int64')) > 1):
            raise Violation('time axis', f'joined time axis has {len(got)} times {got[:3]}...{got[-2:]}, expected {len(axis)} {axis[:3]}...{axis[-2:]}')
        self.joined(flat, parts, owned, ranges, ())
        self.scalars(scalars, parts, ())
        self.overview(sp, overview, calls, owned, ranges)
        return {'key': hash_(json.dumps([L, over, total, [c['fp'] for c in calls]])), 'nontrivial': len(owned) > 1, 'segments': len(owned)}

    def problems(self, sc, w, calls, a, ranges, owned, env, parts):
        sp = sc['spec']
        dt0 = S.prev_dt(sp)
        for i, c in enumerate(calls):
            lo, hi = ranges[i]
            q = S.slice_spec(sp, a + lo, a + hi)
            q['prev_dt'] = dt0
            if i:
                P, x = calls[i - 1]['P'], calls[i - 1]['x']
                val = dict(zip(P.names, x))
                plo = ranges[i - 1][0]
                k = lo - plo  # own length of the previous segment
                for comp in q['comps']:
                    for _, f in S.flows_of(comp):
                        f['prev'] = float(val[self.name(P, comp['label'], f['label'], k - 1)])
                    if comp['kind'] == 'Storage':
                        comp['initial'] = float(val[self.state(P, comp['label'], k)])
            w2 = World(q, sc['notation'], env.dir(), calcs=[{'name': 'A', 'kind': 'full'}])
            w2.sim.solver.keep_problems = True
            with w2.sim.installed():
                r = w2.attempt(w2.build)
                if r[0] == 'ok':
                    r, _ = w2.do({'do': 'model', 'calc': 'A'})
                if r[0] != 'ok':
                    raise Violation('segment', f'segment {i + 1} ({lo}..{hi - 1}) was solved, but a system of only these steps is refused: {r[1:]}')
                w2.do({'do': 'solve', 'calc': 'A'})
            env.absorb(w2.sim)
            if w2.sim.solver.calls[0]['fp'] != c['fp']:
                raise Violation('segment', f'the problem of segment {i + 1} ({lo}..{hi - 1}) is not that of these steps with the start values of the '
                                           f'previous segment: {problem_diff(c["P"], w2.sim.solver.calls[0]["P"])}')

    def name(self, P, comp, flow, k):
        c = [n for n in P.names if re.fullmatch(re.escape(f'{comp}__{flow}') + r'_+flow_rate\[%d\]' % k, n)]
        if len(c) != 1:
            raise HarnessError(f'flow rate of {comp}.{flow} at {k}: {c}')
        return c[0]

    def state(self, P, comp, k):
        c = [n for n in P.names if re.fullmatch(re.escape(comp) + r'_+charge_state\[%d\]' % k, n)]
        if len(c) != 1:
            raise HarnessError(f'charge state of {comp} at {k}: {c}')
        return c[0]

    def joined(self, flat, parts, owned, ranges, path):
        """every array: the values of the owning segment"""
        keys = set().union(*[set(p) for p in parts])
        for k in keys:
            vals = [p.get(k) for p in parts]
            if any(isinstance(v, dict) for v in vals):
                if k not in flat and not self.arrays_in(vals):
                    continue
                if k not in flat:
                    raise Violation('joined', f'{"/".join(path + (k,))} is missing in the joined result')
                self.joined(flat[k], [v if isinstance(v, dict) else {} for v in vals], owned, ranges, path + (k,))
                continue
            if not all(isinstance(v, np.ndarray) and v.ndim == 1 for v in vals):
                continue
            n = [hi - lo for lo, hi in ranges]
            extra = {len(v) - m for v, m in zip(vals, n)}
            if extra not in ({0}, {1}):
                raise Violation('joined', f'{"/".join(path + (k,))} has lengths {[len(v) for v in vals]} in segments of {n} steps')
            want = np.concatenate([v[:hi - lo] for v, (lo, hi) in zip(vals, owned)] + ([vals[-1][-1:]] if extra == {1} else []))
            got = flat.get(k)
            if got is None or len(got) != len(want) or not np.array_equal(np.asarray(got), want):
                raise Violation('joined', f'{"/".join(path + (k,))} of the joined result is {None if got is None else list(got)[:12]}, the segments give {list(want)[:12]}')

    def scalars(self, joined, parts, path):
        """every single value: the list of those of the segments"""
        for k in parts[0]:
            vals = [p.get(k) for p in parts]
            if all(isinstance(v, dict) for v in vals):
                self.scalars(joined.get(k, {}), vals, path + (k,))
            elif all(np.isscalar(v) for v in vals) and list(joined.get(k, ())) != vals:
                raise Violation('scalars', f'{"/".join(path + (k,))} of the joined scalars is {joined.get(k)}, the segments give {vals[:6]}')
        if set(joined) - set(parts[0]):
            raise Violation('scalars', f'joined scalars {"/".join(path)} have {sorted(set(joined) - set(parts[0]))[:2]}, the segments do not')

    def overview(self, sp, overview, calls, owned, ranges):
        """the start values listed for every segment are those it started from"""
        if list(overview) != [f'Segment_{i + 1}' for i in range(len(owned))]:
            raise Violation('start values', f'start values are listed for {list(overview)}, there are {len(owned)} segments')
        for i in range(len(owned)):
            got, want = overview[f'Segment_{i + 1}'], {}
            for c in sp['comps']:
                for _, f in S.flows_of(c):
                    want[f'{c["label"]}__{f["label"]}'] = f.get('prev')
                if c['kind'] == 'Storage':
                    want[c['label']] = c.get('initial', 0)
            if i:
                P = calls[i - 1]['P']
                val = dict(zip(P.names, calls[i - 1]['x']))
                k = owned[i][0] - ranges[i - 1][0]
                for c in sp['comps']:
                    for _, f in S.flows_of(c):
                        want[f'{c["label"]}__{f["label"]}'] = float(val[self.name(P, c['label'], f['label'], k - 1)])
                    if c['kind'] == 'Storage':
                        want[c['label']] = float(val[self.state(P, c['label'], k)])
            for k, v in want.items():
                g = got.get(k)
                if isinstance(v, str) or v is None or g is None or isinstance(g, str):
                    ok = (g == v) or (v is None and k in got and not np.any(g))
                else:
                    u, g2 = np.atleast_1d(np.asarray(v, dtype=float)), np.atleast_1d(np.asarray(g, dtype=float))
                    ok = u.shape == g2.shape and np.array_equal(u, g2)
                if not ok:
                    raise Violation('start values', f'the start value of {k} listed for segment {i + 1} is {g}, it started from {v}')
            if set(got) != set(want):
                raise Violation('start values', f'start values of segment {i + 1} are listed for {sorted(set(got) ^ set(want))[:3]}')

    def arrays_in(self, vals):
        return any(isinstance(v, np.ndarray) or (isinstance(v, dict) and self.arrays_in(v.values())) for v in vals)


def problem_diff(P, Q):
    a, b = P.canonical(), Q.canonical()
    for what, x, y in zip(('variables', 'rows', 'objective'), a, b):
        x, y = set(map(repr, x)), set(map(repr, y))
        if x != y:
            return f'{what}: {sorted(x - y)[:1]} against {sorted(y - x)[:1]}'[:300]
    return 'order'


# --------------------------------------------------------------------------
# A01
# --------------------------------------------------------------------------

@contextlib.contextmanager
def clustering(order_seed, seen):
    """the clustering library as a party of its own: the real result, or a random assignment of periods to the clusters"""
    import flixOpt.aggregation as agg
    real = agg.tsam.TimeSeriesAggregation

    class Sim(real):
        def createTypicalPeriods(self, *a, **k):
            state = np.random.get_state()
            np.random.seed(3)
            try:
                r = super().createTypicalPeriods(*a, **k)
            finally:
                np.random.set_state(state)
            if order_seed is not None:
                rng = random.Random(order_seed)
                old = list(self._clusterOrder)
                ids = sorted(set(old))
                new = [rng.choice(ids) for _ in old]
                for i, p in zip(ids, rng.sample(range(len(old)), len(ids))):
                    new[p] = i
                self._clusterOrder = np.array(new)
                self._clusterPeriodNoOccur = {i: new.count(i) for i in ids}
            seen.append(self)
            return r

        def predictOriginalData(self):
            r = super().predictOriginalData()
            self.given, self.predicted = self.timeSeries.copy(), r.copy()
            return r
    agg.tsam.TimeSeriesAggregation = Sim
    try:
        yield
    finally:
        agg.tsam.TimeSeriesAggregation = real


class A01(Prop):
    runs = {'quick': 420, 'thorough': 9000}
    rule = ('an aggregated calculation with random period length, number of periods, component selection, permitted deviations and penalty; the clustering is '
            'that of the library or a random one; optimum compared with an own formulation of ties on the full problem, ties checked on every random '
            'accepted answer, and a full calculation afterwards uses the original data. Non-trivial: at least two periods share a cluster.')
    measure = 'distinct aggregated problems'

    def generate(self, rng, tier):
        for _ in range(20):
            sp = history_system(rng, n=(4, 9), regular=True)
            if has_arrays(sp, sp['n']):
                break
        else:
            return None
        n = sp['n']
        per = rng.choice([p for p in (2, 2, 3, 3, 4, 1) if -(-n // p) >= 2])
        k = -(-n // per)
        cd = {'name': 'A', 'kind': 'agg', 'hours': round(per * sp['dt'][0], 12), 'periods': rng.randint(1, max(1, k - 1)), 'agg_data': rng.random() < 0.5,
              'fix_storage': rng.random() < 0.5, 'per': per}
        if rng.random() < 0.4:
            labs = [c['label'] for c in sp['comps']]
            cd['comps'] = sorted(rng.sample(labs, rng.randint(1, len(labs))))
        if rng.random() < 0.5:
            cd['freedom'] = rng.choice([10, 20, 33, 50, 100])
            cd['freedom_penalty'] = rng.choice([0, 0.5, 20.0])
        if cd['agg_data']:  # what is aggregated here are not the given values but others calculated from them
            for c in sp['comps']:
                for k in ('COP', 'spec'):
                    if c['kind'] in ('HeatPumpWithSource', 'CoolingTower') and isinstance(c.get(k), list):
                        c[k] = c[k][0]
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': [cd, {'name': 'F', 'kind': 'full'}],
                   'order': rng.choice([None, rng.randrange(1 << 20)]),
                   'answers': [random_answer(rng, 0.0, good=('vertex', 'tie', 'early', 'push')) for _ in range(2)]})

    def candidates(self, sc):
        for i in range(len(sc['answers'])):
            c = js(sc)
            del c['answers'][i]
            yield c
        for k in ('comps', 'freedom'):
            if k in sc['calcs'][0]:
                c = js(sc)
                del c['calcs'][0][k]
                yield c
        for c in super().candidates(sc):
            if c['spec']['n'] == sc['spec']['n'] and set(x['label'] for x in c['spec']['comps']) >= set(sc['calcs'][0].get('comps') or []):
                yield same_periods(c)

    def execute(self, sc, env):
        sp, cd = sc['spec'], sc['calcs'][0]
        env.sim_hours += float(sum(sp['dt']))
        n, per = sp['n'], cd['per']
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        w.sim.solver.keep_problems = True
        seen = []
        with w.sim.installed(), clustering(sc['order'], seen):
            w.build()
            r, _ = w.do({'do': 'model', 'calc': 'A'})
            if r[0] != 'ok':
                if r[1] == 'ValueError' and not seen:
                    return {'skip': 'refused: ' + r[2][:40], 'key': ''}
                raise Violation('refused', f'the aggregated calculation is refused: {r[1:]}')
            if len(seen) != 1:
                raise HarnessError(f'{len(seen)} clusterings')
            order = [int(i) for i in seen[0].clusterOrder]
            r, calls = w.do({'do': 'solve', 'calc': 'A', 'answers': [{'mode': 'opt'}]})
            P = calls[-1]['P'] if calls else None
            if P is None:
                raise Violation('exception', f'the solver was not reached: {r[1:]}')
            outs = [(r, calls[-1], results_of(w.calc('A'), cd) if r[0] == 'ok' else None)]
            for a in sc['answers']:
                r2, c2 = w.do({'do': 'solve', 'calc': 'A', 'answers': [a]})
                outs.append((r2, c2[-1], results_of(w.calc('A'), cd) if r2[0] == 'ok' else None))
            # the data of the aggregation is used by this calculation only
            w.do({'do': 'model', 'calc': 'F'})
            _, cf = w.do({'do': 'solve', 'calc': 'F'})
        env.absorb(w.sim)
        data = self.aggregated_spec(sp, seen[0]) if cd['agg_data'] else sp
        P0 = self.full(data, sc, env)
        PF = P0 if data is sp else self.full(sp, sc, env)
        if cf[-1]['fp'] != PF.fingerprint():
            raise Violation('data', f'a full calculation after the aggregated one is given other data: {problem_diff(cf[-1]["P"], PF)}')
        # pairs of steps that have to be equal
        pairs = []
        for c in set(order):
            ps = [range(p * per, min(n, (p + 1) * per)) for p, o in enumerate(order) if o == c]
            for q in ps[1:]:
                pairs += [(i, j) for i, j in list(zip(ps[0], q))[1:]]
        groups = {}
        for i, nm in enumerate(P0.names):
            m = re.search(r'\[(\d+)\]$', nm)
            if m:
                groups.setdefault(base(nm), {})[int(m.group(1))] = i
        tied = []
        for comp in sp['comps']:
            lab = comp['label']
            if cd.get('comps') and lab not in cd['comps']:
                continue
            if comp['kind'] == 'Storage' and not cd['fix_storage']:
                continue
            for b, ix in groups.items():
                if len(ix) >= n and b.startswith(lab + '_') and (cd['agg_data'] or P0.binary[ix[0]]):
                    tied.append((b, ix, bool(P0.binary[ix[0]])))
        free = cd.get('freedom', 0)
        quota = round(free / 100 * len(pairs))
        # every accepted answer obeys the ties
        for r_, c_, res in outs:
            if r_[0] != 'ok':
                if c_['x'] is not None:
                    raise Violation('exception', f'failed after the solver succeeded: {r_[1:]}')
                continue
            val = dict(zip(c_['P'].names, c_['x']))
            for b, ix, binary in tied:
                dev = [(i, j) for i, j in pairs if abs(val[f'{b}[{i}]'] - val[f'{b}[{j}]']) > 1e-4 * max(1, abs(val[f'{b}[{i}]']))]
                if len(dev) > (quota if binary else 0):
                    raise Violation('not tied', f'{b} differs between steps {dev[:3]} of one cluster ({len(dev)} deviations, {quota if binary else 0} permitted)')
            self.reported(sp, cd, res, pairs, quota)
        st, v = self.own(P0, tied, pairs, quota, cd)
        r_, c_, res = outs[0]
        if st == 'unknown' or c_['outcome'] == 'unknown':
            return {'skip': 'solver undecided', 'key': ''}
        if (st == 'optimal') != (c_['x'] is not None):
            a = P.solve_robust()
            if a[0] != 'unknown' and (a[0] == 'optimal') != (st == 'optimal'):
                raise Violation('optimum', f'the aggregated problem is {c_["outcome"]}, the full problem with the ties {st}')
        elif st == 'optimal':
            pv = P.objective_value(c_['x'])
            if abs(pv - v) > 1e-5 * max(1, abs(pv), abs(v)):
                a = P.solve_robust()
                if abs(a[1] - v) > 1e-5 * max(1, abs(a[1]), abs(v)):
                    raise Violation('optimum', f'the aggregated problem has the optimum {a[1]:.8g}, the full problem with exactly the ties {v:.8g}')
        return {'key': P.fingerprint(), 'nontrivial': len(pairs) > 0 and len(tied) > 0, 'pairs': len(pairs), 'order': order}

    def reported(self, sp, cd, res, pairs, quota):
        for comp in sp['comps']:
            if cd.get('comps') and comp['label'] not in cd['comps'] or comp['kind'] == 'Storage' and not cd['fix_storage']:
                continue
            for _, f in S.flows_of(comp):
                fr = res['Components'][comp['label']][f['label']]
                on = fr.get('OnOff', {}).get('on')
                if cd['agg_data']:
                    v = np.asarray(fr['flow_rate'], float)
                    bad = [(i, j) for i, j in pairs if abs(v[i] - v[j]) > 1e-4 * max(1.0, abs(v[i]))]
                    if bad:
                        raise Violation('not tied', f'reported flow rate of {comp["label"]}.{f["label"]} differs between steps {bad[:3]} of one cluster')
                if on is not None:
                    bad = [(i, j) for i, j in pairs if on[i] != on[j]]
                    if len(bad) > quota:
                        raise Violation('not tied', f'reported on state of {comp["label"]}.{f["label"]} differs in {len(bad)} steps of one cluster, {quota} permitted')

    def aggregated_spec(self, sp, ts):
        """every time-dependent value replaced by what the clustering library predicts for it"""
        n = sp['n']
        table = [(ts.given[c].to_numpy(), ts.predicted[c].to_numpy()) for c in ts.given.columns]

        def sub(x):
            if isinstance(x, dict):
                return {k: (v if k in ('dt', 'prev') else sub(v)) for k, v in x.items()}
            if isinstance(x, list):
                if len(x) in (n, n + 1) and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in x):
                    for g, p in table:
                        if np.allclose(g[:n], x[:n], rtol=0, atol=1e-12):
                            return [float(v) for v in p[:n]] + list(x[n:])
                    return x
                return [sub(v) for v in x]
            return x
        return sub(js(sp))

    def full(self, sp, sc, env):
        w = World(sp, sc['notation'], env.dir(), calcs=[{'name': 'F', 'kind': 'full'}])
        w.sim.solver.keep_problems = True
        with w.sim.installed():
            r = w.attempt(w.build)
            if r[0] == 'ok':
                r, _ = w.do({'do': 'model', 'calc': 'F'})
            if r[0] != 'ok':
                raise HarnessError(f'full problem: {r[1:]}')
            w.do({'do': 'solve', 'calc': 'F'})
        return w.sim.solver.calls[0]['P']

    def own(self, P, tied, pairs, quota, cd):
        """optimum of the full problem with exactly these ties"""
        from scipy import sparse
        from scipy.optimize import Bounds, LinearConstraint, milp
        A, lo, hi, lb, ub, cost, integ = P.arrays()
        nv = A.shape[1]
        free = cd.get('freedom', 0) > 0
        pen = cd.get('freedom_penalty', 0)
        rows, extra = [], 0  # rows: (terms, lo, hi)
        for b, ix, binary in tied:
            if not pairs:
                continue
            ks = []
            for i, j in pairs:
                t = {ix[i]: 1.0, ix[j]: -1.0}
                if binary and free:
                    ks.append(nv + extra)
                    rows.append(({**t, nv + extra: 1.0}, 0.0, np.inf))
                    rows.append(({**t, nv + extra: -1.0}, -np.inf, 0.0))
                    extra += 1
                else:
                    rows.append((t, 0.0, 0.0))
            if ks:
                rows.append(({k: 1.0 for k in ks}, -np.inf, quota))
        best = None
        r_, c_, v_ = [], [], []
        for k, (t, _, _) in enumerate(rows):
            for i, a in t.items():
                r_.append(k)
                c_.append(i)
                v_.append(a)
        B = sparse.csr_matrix((v_, (r_, c_)), shape=(len(rows), nv + extra))
        A2 = sparse.vstack([sparse.hstack([A, sparse.csr_matrix((A.shape[0], extra))]), B]).tocsr()
        lo2, hi2 = np.append(lo, [x[1] for x in rows]), np.append(hi, [x[2] for x in rows])
        sts = set()
        for pre in (True, False):
            r = milp(np.append(cost, np.full(extra, float(pen))), integrality=np.append(integ, np.ones(extra)), constraints=LinearConstraint(A2, lo2, hi2),
                     bounds=Bounds(np.append(lb, np.zeros(extra)), np.append(np.maximum(lb, ub), np.ones(extra))),
                     options={'mip_rel_gap': 0.0, 'time_limit': 20.0, 'presolve': pre})
            sts.add({0: 'optimal', 2: 'infeasible'}.get(r.status, 'unknown'))
            if r.status == 0 and (best is None or r.fun < best):
                best = r.fun
            if r.status == 0:
                break
        if best is not None:
            return 'optimal', float(best + P.obj_const)
        return ('infeasible' if sts == {'infeasible'} else 'unknown'), None


def make(pid):
    return {'H04': H04, 'S01': S01, 'A01': A01}[pid](pid)
