"""H03, H05: the user's data objects and the insertion of elements."""
import json
import os
import random

import numpy as np

from .. import build, gen, spec as S
from ..sim import Violation
from ..world import World, differ, history_system, js, plain, random_answer, random_calc, results_of
from .base import Prop
from .hist import H01, hash_, random_ops


# --------------------------------------------------------------------------
# H03
# --------------------------------------------------------------------------

PLOTS = ['area', 'bar', 'line', 'mbar', 'mline', 'heat', 'pheat', 'mheat']


def equal_inputs(rng, sp):
    """lets elements have equal inputs here and there, so that one object can serve several of them"""
    flows = [f for c in sp['comps'] for _, f in S.flows_of(c)]
    for keys in (('eff',), ('onoff',), ('rmin', 'rmax'), ('profile',), ('size',), ('prev',)):
        have = [f for f in flows if any(f.get(k) is not None for k in keys)]
        for f in have:
            if len(have) > 1 and rng.random() < 0.35:
                src = rng.choice(have)
                if keys == ('profile',) and f.get('profile') is None:
                    continue
                for k in keys:
                    f.pop(k, None)
                    if src.get(k) is not None:
                        f[k] = js(src[k])
    stores = [c for c in sp['comps'] if c['kind'] == 'Storage']
    inv = [f['size'] for f in flows if isinstance(f.get('size'), dict)]
    for c in stores:
        if inv and isinstance(c['capacity'], dict) and rng.random() < 0.5:
            c['capacity'] = js(rng.choice(inv))
    on = [c for c in sp['comps'] if c.get('onoff')]
    for c in on:
        if rng.random() < 0.5:
            src = rng.choice(on + [f for f in flows if f.get('onoff')])
            c['onoff'] = js(src['onoff'])
    ph = [e for e in sp['effects'] if e.get('max_ph') is not None]
    for e in ph:
        e['max_ph'] = js(rng.choice(ph)['max_ph'])
    return sp


class H03(H01):
    runs = {'quick': 500, 'thorough': 10000}
    rule = ('random sequences of modelling, solving, failing, interrupting, saving, loading, exporting and plotting; a frozen copy of every array, time-series '
            'object, effect dictionary, list, parameter object and data frame handed over is compared after each operation. In half of the runs equal inputs of '
            'several elements are one object; the problems are compared with those of a system with separate objects. Non-trivial: two operations reached the solver '
            'or a plot, or an object was shared and the problems were compared.')
    measure = 'distinct (operation outcomes, problems) sequences'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(3, 6), regular=rng.random() < 0.5)
        sc = {'notation': rng.randrange(1 << 30), 'share': None}
        if rng.random() < 0.6:
            sp = equal_inputs(rng, sp)
            sc['share'] = rng.randrange(1 << 30)
        defs = [random_calc(rng, sp, nm) for nm in 'AB'[:rng.randint(1, 2)]]
        ops = random_ops(rng, {d['name']: d for d in defs}, rng.randint(1, 5), save_p=0.4, fault_p=0.25)
        for _ in range(rng.randint(0, 3)):
            q = rng.random()
            if q < 0.3:
                op = {'do': 'load', 'calc': rng.choice(defs)['name'], 'save': 'res'}
            elif q < 0.45:
                op = {'do': 'export', 'path': 'x.json'}
            else:
                op = {'do': 'plot', 'mode': rng.choice(PLOTS), 'n': rng.randint(2, 6), 'cols': rng.randint(1, 4), 'seed': rng.randrange(1 << 30), 'calc': None}
            ops.insert(rng.randint(0, len(ops)), op)
        return js({'spec': sp, 'calcs': defs, 'ops': ops, **sc})

    def candidates(self, sc):
        for c in super().candidates(sc):
            yield c
        if sc.get('share') is not None:
            c = js(sc)
            c['share'] = None
            yield c

    def frame(self, op):
        import pandas as pd
        r = np.random.default_rng(op['seed'])
        v = np.where(r.random((op['n'], op['cols'])) < 0.3, r.choice([0.0, 1e-7, -1e-7, 1e-5, 1e-12]), r.normal(size=(op['n'], op['cols'])))
        if op['mode'] == 'area':  # stacked areas need columns of one sign
            v = np.abs(v) * r.choice([-1, 1], size=op['cols'])
        return pd.DataFrame(v, index=pd.date_range('2020-01-01', periods=op['n'], freq='h', name='t'), columns=[f'c{i}' for i in range(op['cols'])])

    def plot(self, op, df):
        from flixOpt import plotting
        m = op['mode']
        if m in ('area', 'bar', 'line'):
            colors = ['red', 'blue', 'green', 'black'][:op['cols']] if op['seed'] % 2 else 'viridis'
            given = list(colors)
            plotting.with_plotly(df, m, colors)
            if list(colors) != given:
                raise Violation('inputs', f'the list of colours was {given}, is {colors}')
        elif m in ('mbar', 'mline'):
            import matplotlib.pyplot as plt
            try:
                plotting.with_matplotlib(df, m[1:])
            finally:
                plt.close('all')
        else:
            heat = plotting.heat_map_data_from_df(df[['c0']], 'D', 'h', 'ffill')
            if m != 'heat':
                copy = heat.copy(deep=True)
                try:
                    (plotting.heat_map_plotly if m == 'pheat' else plotting.heat_map_matplotlib)(heat)
                finally:
                    import matplotlib.pyplot as plt
                    plt.close('all')
                if not heat.equals(copy):
                    raise Violation('inputs', f'plotting ({m}) changed the data frame it was given')

    def execute(self, sc, env):
        sp = sc['spec']
        env.sim_hours += float(sum(sp['dt']))
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'], share=sc.get('share'))
        std = S.standard_effect(sp)
        reached = 0
        with w.sim.installed():
            r = w.attempt(w.build)
            if r[0] != 'ok':
                return {'key': 'refused', 'skip': 'system refused'}
            N = w.B.notation
            bad = N.changed(std)
            if bad:
                raise Violation('inputs', f'building the system: {bad}')
            for op in sc['ops']:
                if op['do'] == 'plot':
                    df = self.frame(op)
                    copy = df.copy(deep=True)
                    w.attempt(lambda: self.plot(op, df))
                    if not (df.equals(copy) and list(df.columns) == list(copy.columns) and df.index.name == copy.index.name and (df.dtypes == copy.dtypes).all()):
                        raise Violation('inputs', f'plotting ({op["mode"]}) changed the data frame it was given:\n{copy}\n{df}')
                    w.log.append(('plot', op['mode'], 'ok'))
                    reached += 1
                    continue
                r, calls = w.do(op)
                reached += len(calls)
                bad = N.changed(std)
                if bad:
                    raise Violation('inputs', f'after {op["do"]} of {op.get("calc")} ({r[0]}) in {[l[:3] for l in w.log]}: {bad}')
            shared = N.shared
        env.absorb(w.sim)
        fps = [c['fp'] for c in w.sim.solver.calls]
        if shared:
            fps += self.compare(sc, env)
        return {'key': hash_(json.dumps([[l[:3] for l in w.log], fps])), 'nontrivial': reached > 1 or bool(shared and fps), 'shared': shared}

    def compare(self, sc, env):
        """one object in several elements and equal separate objects give the same calculations"""
        got = []
        for share in (None, sc['share']):
            w = World(sc['spec'], sc['notation'], env.dir(), calcs=sc['calcs'], share=share)
            log = []
            with w.sim.installed():
                w.build()
                for cd in sc['calcs']:
                    m, _ = w.do({'do': 'model', 'calc': cd['name']})
                    r, calls = (m, []) if m[0] != 'ok' else w.do({'do': 'solve', 'calc': cd['name']})
                    log.append((r[:2] if r[0] != 'ok' else ('ok',), [c['fp'] for c in calls], plain(results_of(w.calc(cd['name']), cd)) if r[0] == 'ok' else None, r))
            env.absorb(w.sim)
            got.append(log)
        for cd, a, b in zip(sc['calcs'], *got):
            if a[0] != b[0]:
                raise Violation('shared', f'{cd} ends with {b[3][:3]} if equal inputs are one object, otherwise with {a[3][:3]}')
            if a[1] != b[1]:
                raise Violation('shared', f'the problem of {cd} differs if equal inputs of several elements are one object')
            d = differ(a[2], b[2], 1e-9)
            if d:
                raise Violation('shared', f'the results of {cd} differ if equal inputs of several elements are one object: {d}')
        return [x for a in got[0] for x in a[1]]


# --------------------------------------------------------------------------
# H05
# --------------------------------------------------------------------------

BADS = ['comp_label', 'comp_label', 'comp_repeat', 'effect_label', 'effect_repeat', 'effect_standard', 'effect_objective', 'type_comp', 'type_effect', 'type_any',
        'flow_repeat', 'flow_label', 'bus_label', 'own_label']


class H05(Prop):
    runs = {'quick': 500, 'thorough': 20000}
    rule = ('elements are added in random order, singly or grouped, through any method, with attempts that must be refused in between, also between modelling and '
            'solving; every attempt must raise, and the description, problem and results must be those of a system built without any attempt. '
            'Non-trivial: at least one attempt was made and a problem was compared.')
    measure = 'distinct (attempts, problem) pairs'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(3, 4), comps=(2, 5))
        items = [['e', e['label']] for e in sp['effects']] + [['c', c['label']] for c in sp['comps']]
        rng.shuffle(items)
        ops = []
        i = 0
        while i < len(items):
            for _ in range(rng.randint(0, 2)):
                ops.append(self.attempt(rng))
            k = rng.choice([1, 1, 2, 3])
            mode = rng.choice(['own', 'any'])
            if mode == 'own':
                while k > 1 and len({t for t, _ in items[i:i + k]}) > 1:
                    k -= 1
            op = {'do': 'add', 'items': items[i:i + k], 'mode': mode}
            if rng.random() < 0.25:
                op['bad'] = self.attempt(rng)
                op['pos'] = rng.randint(0, len(op['items']))
                op['mode'] = 'any'
            ops.append(op)
            i += k
        for _ in range(rng.randint(0, 2)):
            ops.append(self.attempt(rng))
        later = [[self.attempt(rng) for _ in range(rng.choice([0, 1]))] for _ in range(2)]
        return js({'spec': sp, 'ops': ops, 'later': later, 'calcs': [random_calc(rng, sp, 'F', ('full', 'full', 'sub', 'seg', 'agg'))], 'notation': rng.randrange(1 << 30)})

    def attempt(self, rng):
        return {'do': 'bad', 'kind': rng.choice(BADS), 'k': rng.randrange(1 << 16), 'via': rng.choice(['own', 'any'])}

    def candidates(self, sc):
        for i, o in enumerate(sc['ops']):
            c = js(sc)
            if o['do'] == 'bad':
                del c['ops'][i]
            elif 'bad' in o:
                del c['ops'][i]['bad']
            else:
                continue
            yield c
        if any(sc['later']):
            c = js(sc)
            c['later'] = [[], []]
            yield c
        if sc['notation'] is not None:
            c = js(sc)
            c['notation'] = None
            yield c

    # ------------------------------------------------------------------
    def bad_object(self, B, a, added):
        """(object that must be refused, kind of method) or None if there is nothing to clash with yet"""
        import flixOpt as fx
        rnd = random.Random(a['k'])
        comps = [l for t, l in added if t == 'c']
        effs = [l for t, l in added if t == 'e']
        buses = sorted({f['bus'] for c in B.spec['comps'] if c['label'] in comps for _, f in S.flows_of(c)})
        any_bus = B.buses[rnd.choice(sorted(B.buses))]
        taken = comps + effs + buses
        k = a['kind']

        def source(label, bus=any_bus, flow='q'):
            cls = rnd.choice(['source', 'sink', 'boiler', 'storage'])
            if cls == 'source':
                return fx.Source(label, fx.Flow(flow, bus, size=3))
            if cls == 'sink':
                return fx.Sink(label, fx.Flow(flow, bus, size=3, fixed_relative_profile=1))
            if cls == 'boiler':
                return fx.linear_converters.Boiler(label, 0.5, Q_fu=fx.Flow(flow + '1', bus, size=9), Q_th=fx.Flow(flow, bus, size=9))
            return fx.Storage(label, charging=fx.Flow(flow, bus, size=2), discharging=fx.Flow(flow + '2', bus, size=2), capacity_in_flow_hours=4)
        if k == 'comp_label':
            return (source(rnd.choice(taken)), 'c') if taken else None
        if k == 'comp_repeat':
            return (B.comps[rnd.choice(comps)], 'c') if comps else None
        if k == 'effect_label':
            return (fx.Effect(rnd.choice(taken), 'x', 'y'), 'e') if taken else None
        if k == 'effect_repeat':
            return (B.effects[rnd.choice(effs)], 'e') if effs else None
        if k == 'effect_standard':
            return (fx.Effect('another', 'x', 'y', is_standard=True), 'e') if S.standard_effect(B.spec) in effs else None
        if k == 'effect_objective':
            return (fx.Effect('another', 'x', 'y', is_objective=True), 'e') if S.objective_effect(B.spec) in effs else None
        if k == 'type_comp':
            return rnd.choice([any_bus, fx.Flow('q', any_bus), 'text', None, 5, fx.Bus('newbus'), fx.OnOffParameters(), [source('new')]]), 'c'
        if k == 'type_effect':
            return rnd.choice([any_bus, source('new'), 'text', None, 5, {'a': 1}]), 'e'
        if k == 'type_any':
            return rnd.choice([any_bus, fx.Flow('q', any_bus), 'text', None, fx.Bus('newbus'), fx.InvestParameters(maximum_size=1)]), 'any'
        if k == 'flow_repeat':
            if not comps:
                return None
            lab = rnd.choice(comps)
            fl = [B.flows[(lab, f['label'])] for c in B.spec['comps'] if c['label'] == lab for _, f in S.flows_of(c)]
            f = rnd.choice(fl)
            return rnd.choice([lambda: fx.Source('new', f), lambda: fx.Sink('new', f),
                               lambda: fx.linear_converters.Boiler('new', 0.5, Q_fu=fx.Flow('q1', any_bus), Q_th=f)])(), 'c'
        if k == 'flow_label':
            return rnd.choice([
                lambda: fx.linear_converters.Boiler('new', 0.5, Q_fu=fx.Flow('q', any_bus, size=9), Q_th=fx.Flow('q', any_bus, size=9)),
                lambda: fx.Storage('new', charging=fx.Flow('q', any_bus, size=2), discharging=fx.Flow('q', any_bus, size=2), capacity_in_flow_hours=4)])(), 'c'
        if k == 'bus_label':
            return (source('new', fx.Bus(rnd.choice(taken), 50)), 'c') if taken else None
        if k == 'own_label':
            return source('same', fx.Bus('same', 50)), 'c'
        raise ValueError(k)

    def refuse(self, w, a, added):
        """tries the attempt; True if there was one"""
        B = w.B
        x = self.bad_object(B, a, added)
        if x is None:
            return False
        obj, kind = x
        fn = B.fs.add_elements if a['via'] == 'any' or kind == 'any' else B.fs.add_components if kind == 'c' else B.fs.add_effects
        if a['kind'] == 'type_effect' and fn == B.fs.add_elements:
            fn = B.fs.add_effects  # components are welcome in add_elements
        r = w.attempt(lambda: fn(obj))
        if r[0] == 'ok':
            raise Violation('accepted', f'{a["kind"]}: {fn.__name__}({type(obj).__name__} {getattr(obj, "label", obj)!r}) is not refused with {added} in the system')
        w.sim.count('fault:refused:' + a['kind'])
        return True

    def build(self, w, sc, bads):
        w.B = B = build.build(sc['spec'], None if sc['notation'] is None else random.Random(sc['notation']), add=False)
        added, made = [], 0

        def registered(item):
            t, l = item
            return B.fs.effect_collection.effects.get(l) is B.effects[l] if t == 'e' else B.fs.components.get(l) is B.comps[l]
        for op in sc['ops']:
            if op['do'] == 'bad':
                made += bool(bads and self.refuse(w, op, added))
                continue
            items = [tuple(x) for x in op['items']]
            objs = [B.effects[l] if t == 'e' else B.comps[l] for t, l in items]
            fn = B.fs.add_elements if op['mode'] == 'any' else B.fs.add_effects if items[0][0] == 'e' else B.fs.add_components
            x = bads and op.get('bad') and op['bad']['kind'] != 'type_effect' and self.bad_object(B, op['bad'], added)
            if x:
                r = w.attempt(lambda: B.fs.add_elements(*objs[:op['pos']], x[0], *objs[op['pos']:]))
                if r[0] == 'ok':
                    raise Violation('accepted', f'{op["bad"]["kind"]}: {getattr(x[0], "label", x[0])!r} among others is not refused')
                made += 1
                w.sim.count('fault:refused:' + op['bad']['kind'])
                for o in [o for o, it in zip(objs, items) if not registered(it)]:
                    B.fs.add_elements(o)
            else:
                fn(*objs)
            added += items
        return made, added

    def session(self, sc, env, bads):
        w = World(sc['spec'], sc['notation'], env.dir(), calcs=sc['calcs'])
        cd = sc['calcs'][0]
        with w.sim.installed():
            made, added = self.build(w, sc, bads)

            def later(i):
                return sum(bool(self.refuse(w, a, added)) for a in sc['later'][i]) if bads else 0
            desc = plain(w.B.fs.infos())
            desc['n'] = [len(w.B.fs.components), len(w.B.fs.effect_collection.effects), len(w.B.fs.flows), len(w.B.fs.buses)]
            desc['network'] = plain(w.B.fs.network_infos())
            m, _ = w.do({'do': 'model', 'calc': cd['name']})
            made += later(0)
            r, calls = (m, []) if m[0] != 'ok' else w.do({'do': 'solve', 'calc': cd['name']})
            made += later(1)
            res = plain(results_of(w.calc(cd['name']), cd)) if r[0] == 'ok' else None
        env.absorb(w.sim)
        return r, [c['fp'] for c in calls], res, desc, made

    def execute(self, sc, env):
        env.sim_hours += float(sum(sc['spec']['dt']))
        a = self.session(sc, env, True)
        b = self.session(sc, env, False)
        if a[0][0] != b[0][0]:
            raise Violation('outcome', f'with refused attempts the calculation ends with {a[0][:3]}, without with {b[0][:3]}')
        d = differ(a[3], b[3])
        if d:
            raise Violation('system', f'refused attempts changed the system: {d}')
        if a[1] != b[1]:
            raise Violation('problem', 'refused attempts changed the problem handed to the solver')
        multi = any('bad' in o for o in sc['ops'])
        d = None if multi else differ(a[2], b[2], 1e-9)
        if d:
            raise Violation('results', f'refused attempts changed the results: {d}')
        # in the order of the specification, one call
        w = World(sc['spec'], sc['notation'], env.dir(), calcs=sc['calcs'])
        with w.sim.installed():
            w.build()
            m, _ = w.do({'do': 'model', 'calc': 'F'})
            r, calls = (m, []) if m[0] != 'ok' else w.do({'do': 'solve', 'calc': 'F'})
        env.absorb(w.sim)
        if r[0] != b[0][0]:
            raise Violation('order', f'the calculation ends with {b[0][:3]}, if elements are added in another order with {r[:3]}')
        if b[1][:1] != [c['fp'] for c in calls][:1]:
            raise Violation('order', 'the problem depends on how the elements were added')
        return {'key': hash_(json.dumps([[o.get('kind') for o in sc['ops']], b[1]])), 'nontrivial': a[4] > 0 and bool(b[1]), 'attempts': a[4]}


def make(pid):
    return {'H03': H03, 'H05': H05}[pid](pid)
