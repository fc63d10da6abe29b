"""Random system specifications. All numbers are short decimals so that specs
stay readable and sums are well conditioned."""
import copy

import numpy as np

from . import spec as S

DEFAULTS = dict(
    n=(2, 7), irregular=0.5, buses=(1, 3), comps=(2, 5),
    tvp=0.45,          # probability that a value varies over time
    onoff=0.35, invest=0.3, limits=0.3, effects=(1, 3), penalty=0.75,
    sparse=0.35, long=0.02, storage=0.35, converter=0.5, transmission=0.2, srcsink=0.25, neg=0.35,
    fx_limits=0.3, fx_shares=0.5, segments=0.35, prev=0.4, profile_invest=0.25, none_size=0.08, zero=0.03, fine=0.15,
)

FOCI = {
    'M01': dict(penalty=0.7, buses=(1, 4), comps=(2, 6), irregular=0.7, srcsink=0.4),
    'M02': dict(limits=0.9, onoff=0.3, invest=0.3),
    'M03': dict(converter=0.9, transmission=0.55, segments=0.5, storage=0.1),
    'M04': dict(storage=1.0, converter=0.15, transmission=0.05, irregular=0.7),
    'M05': dict(onoff=0.95, n=(3, 7), prev=0.6, invest=0.15, converter=0.55, limits=0.1, fx_limits=0.1),
    'M06': dict(invest=0.9, onoff=0.4, storage=0.4, limits=0.3),
    'M07': dict(effects=(2, 4), fx_limits=0.7, fx_shares=0.9, onoff=0.35, invest=0.4),
    'M08': dict(),
}


def r2(rng, a, b, nd=2):
    return round(rng.uniform(a, b), nd)


class Gen:
    def __init__(self, rng, focus=None, **over):
        self.rng = rng
        self.p = dict(DEFAULTS)
        self.p.update(FOCI.get(focus, {}))
        self.p.update(over)

    def chance(self, key):
        return self.rng.random() < (self.p[key] if isinstance(key, str) else key)

    def irange(self, key):
        a, b = self.p[key]
        return self.rng.randint(a, b)

    def tvv(self, a, b, nd=2, p=None, sparse=False):
        """a value or a list of values, some of them zero if sparse"""
        if self.rng.random() < (self.p['tvp'] if p is None else p):
            xs = [r2(self.rng, a, b, nd) for _ in range(self.n)]
            if sparse and self.rng.random() < self.p['sparse']:
                if self.rng.random() < 0.5:
                    xs = [x if self.rng.random() < 0.6 else 0.0 for x in xs]
                else:  # zero over the first or last steps, so that parts of the horizon do without it
                    k = self.rng.randint(1, self.n - 1)
                    xs = [0.0] * k + xs[k:] if self.rng.random() < 0.5 else xs[:k] + [0.0] * (self.n - k)
            if len(set(xs)) == 1:
                return xs[0]
            return xs
        return r2(self.rng, a, b, nd)

    def effvals(self, a, b, nd=2, tdep=True, allow_none=0.0):
        """effect values: a plain value (standard effect) or dict"""
        rng = self.rng
        v = (lambda: self.tvv(a, b, nd, sparse=True)) if tdep else (lambda: r2(rng, a, b, nd))
        labels = [e['label'] for e in self.effects]
        if rng.random() < 0.45:
            return v()
        k = rng.randint(1, len(labels))
        return {l: v() for l in sorted(rng.sample(labels, k))}

    def make(self):
        rng = self.rng
        if self.chance('long'):  # many steps, few parts
            self.p = dict(self.p, n=(12, 30), comps=(1, 1), buses=(1, 1), effects=(1, 2))
        n = self.n = self.irange('n')
        if self.chance('irregular'):
            dt = [rng.choice([0.25, 0.5, 1, 1.5, 2, 3]) for _ in range(n)]
        else:
            dt = [rng.choice([0.25, 0.5, 1, 1, 2])] * n
        dt = [float(x) for x in dt]
        start = rng.choice(['2020-01-01T00:00:00', '2021-03-28T01:00:00', '2019-12-31T22:30:00', '2020-02-28T23:00:00'])
        if self.chance('fine'):  # steps of minutes, seconds or days, starts at any instant
            k = rng.choice(['any', 'any', 'odd', 'day'])
            if k == 'day':
                dt, start = [24.0 if x < 2 else 48.0 for x in dt], start[:10] + 'T00:00:00'
            else:
                pool = [0.1, 1 / 3, 0.2, 0.2625, 1.005, 0.7] if k == 'any' else [0.1001, 1.00025, 0.5 + 1 / 3600]
                dt = [rng.choice(pool) for _ in dt] if len(set(dt)) > 1 else [rng.choice(pool)] * n
            if rng.random() < 0.5:
                start = rng.choice(['2020-02-29T23:59:45', '2021-10-31T02:30:10.250000', '1999-12-31T23:59:59.000001'])
        sp = {'n': n, 'dt': dt, 'unit': rng.choice(['s', 'm', 'us', 'ns', 'h', 'D', 'ms']), 'start': start}
        if rng.random() < 0.3:
            sp['last_as'] = 'timedelta'
        if rng.random() < 0.3:
            sp['last_explicit'] = True
        if rng.random() < 0.35:
            sp['prev_dt'] = rng.choice([0.5, 1.0, 2.0])
        # effects
        ne = self.irange('effects')
        names = ['costs', 'CO2', 'PE', 'water'][:ne]
        self.effects = sp['effects'] = [{'label': l, 'unit': 'u_' + l} for l in names]
        sp['effects'][0]['standard'] = True
        sp['effects'][0 if rng.random() < 0.8 else rng.randrange(ne)]['objective'] = True
        # shares only from later to earlier (acyclic)
        for i in range(1, ne):
            e = sp['effects'][i]
            if self.chance('fx_shares'):
                tgt = sp['effects'][rng.randrange(i)]['label']
                if rng.random() < 0.8:
                    e['op_share'] = {tgt: self.tvv(0.05, 1.0, sparse=True)}
                if rng.random() < 0.6:
                    e['inv_share'] = {tgt: r2(rng, 0.05, 1.0)}
        # buses
        nb = self.irange('buses')
        sp['buses'] = [{'label': l, 'penalty': self.tvv(20, 120, 0, sparse=True) if self.chance('penalty') else None}
                       for l in ['heat', 'el', 'gas', 'cold'][:nb]]
        self.B = [b['label'] for b in sp['buses']]
        sp['comps'] = []
        self.sp = sp
        # every bus has a source and a sink somewhere
        for b in self.B:
            if b == self.B[0] or rng.random() < 0.7:
                self.add_sink(b)
            if rng.random() < 0.75:
                self.add_source(b)
        for _ in range(self.irange('comps')):
            kinds = []
            for k, key in (('storage', 'storage'), ('converter', 'converter'), ('transmission', 'transmission'),
                           ('srcsink', 'srcsink'), ('source', 0.15), ('sink', 0.15)):
                if self.chance(key):
                    kinds.append(k)
            if not kinds:
                continue
            k = rng.choice(kinds)
            if len(sp['comps']) >= 7:
                break
            getattr(self, 'add_' + k)(rng.choice(self.B))
        if self.p['storage'] >= 1.0 and not any(c['kind'] == 'Storage' for c in sp['comps']):
            self.add_storage(rng.choice(self.B))
        self.effect_limits()
        return sp

    # ------------------------------------------------------------------
    def label(self, base):
        return f'{base}{len(self.sp["comps"])}'

    def base_size(self):
        return float(self.rng.choice([5, 8, 10, 12.5, 20, 30]))

    def flow(self, label, bus, cost=None, allow_invest=True, allow_onoff=True, allow_rmin=True, allow_profile=False,
             allow_limits=True, size_scale=1.0, force_size=True, zero=True):
        rng = self.rng
        f = {'label': label, 'bus': bus}
        sz = round(self.base_size() * size_scale, 3)
        if zero and rng.random() < self.p['zero']:
            sz = 0.0
        invest = allow_invest and self.chance(self.p['invest'] * 0.6)
        if invest:
            f['size'] = self.invest(sz)
        else:
            f['size'] = sz
        onoff = allow_onoff and self.chance(self.p['onoff'] * 0.6)
        if allow_rmin and rng.random() < (0.75 if onoff else 0.25):
            f['rmin'] = self.tvv(0.05, 0.45, sparse=True)
        if rng.random() < 0.4:
            f['rmax'] = self.tvv(0.5, 1.0)
        if rng.random() < (0.35 if onoff else 0.15):  # bounds that move a lot, the lower close to the upper
            f['rmax'] = [r2(rng, 0.05, 1.0) if rng.random() < 0.85 else 0.0 for _ in range(self.n)]
            if allow_rmin and rng.random() < 0.6:
                f['rmin'] = [round(u * r2(rng, 0.0, 1.0), 2) for u in f['rmax']]
            else:  # never above the upper bound
                f.pop('rmin', None)
        if cost is not None:
            f['eff'] = cost
        if onoff:
            f['onoff'] = self.onoff()
        if self.chance(self.p['prev'] * (1 if onoff else 0.3)):
            f['prev'] = self.prev(sz)
        if allow_limits and self.chance(self.p['limits'] * 0.5):
            T = sum(self.sp['dt'])
            k = rng.choice(['fh_max', 'fh_min', 'lf_max', 'lf_min', 'both'])
            if k == 'fh_max':
                f['fh_max'] = round(sz * T * r2(rng, 0.2, 0.8), 2)
            elif k == 'fh_min':
                f['fh_min'] = round(sz * T * r2(rng, 0.05, 0.5), 2)
            elif k == 'lf_max':
                f['lf_max'] = r2(rng, 0.2, 0.8)
            elif k == 'lf_min':
                f['lf_min'] = r2(rng, 0.05, 0.4)
            else:
                f['lf_min'], f['lf_max'] = r2(rng, 0.05, 0.3), r2(rng, 0.35, 0.8)
        return f

    def prev(self, sz):
        rng = self.rng
        if rng.random() < 0.5:
            return rng.choice([0.0, round(0.5 * sz, 2)])
        k = rng.randint(2, 4)
        return [rng.choice([0.0, round(0.5 * sz, 2)]) for _ in range(k)]

    def invest(self, sz, allow_segments=True):
        rng = self.rng
        i = {'optional': rng.random() < 0.6}
        mode = rng.random()
        if mode < 0.3:
            i['fixed'] = sz
        else:
            if rng.random() < 0.6:
                i['min'] = round(sz * r2(rng, 0.1, 0.6), 2)
            i['max'] = sz
        if rng.random() < 0.5:
            i['fix'] = self.effvals(1, 40, 1, tdep=False)
        if rng.random() < 0.6:
            i['spec'] = self.effvals(-1 if rng.random() < 0.15 else 0.2, 6, 2, tdep=False)
        if i['optional'] and rng.random() < 0.35:
            i['divest'] = self.effvals(0.5, 30, 1, tdep=False)
        if allow_segments and sz > 0 and 'fixed' not in i and rng.random() < self.p['segments'] * 0.6:
            lo = i.get('min', 0.0)
            hi = i['max']
            k = rng.randint(1, 3)
            cuts = sorted({lo, hi} | {round(lo + (hi - lo) * rng.random(), 2) for _ in range(k - 1)})
            pts = [[a, b] for a, b in zip(cuts[:-1], cuts[1:])]
            eff = {}
            for l in rng.sample([e['label'] for e in self.effects], rng.randint(1, len(self.effects))):
                ys = [r2(rng, 0, 10, 1)]
                for _ in pts:
                    ys.append(round(ys[-1] + r2(rng, 0, 30, 1), 1))
                eff[l] = [[a, b] for a, b in zip(ys[:-1], ys[1:])]
                if rng.random() < 0.3 and len(eff[l]) > 1:  # a jump between segments
                    eff[l][-1] = [round(eff[l][-1][0] + 5, 1), round(eff[l][-1][1] + 5, 1)]
                if rng.random() < 0.25:  # a revenue, falling or rising with the size
                    top = max(y for p in eff[l] for y in p) if rng.random() < 0.5 else 0.0
                    eff[l] = [[round(top - a, 1), round(top - b, 1)] if top else [-a, -b] for a, b in eff[l]]
            i['segments'] = {'size': pts, 'eff': dict(sorted(eff.items()))}
        return i

    def onoff(self, rich=None):
        rng = self.rng
        o = {}
        T = sum(self.sp['dt'])
        dtm = sorted(self.sp['dt'])[len(self.sp['dt']) // 2]
        pool = ['on_min', 'on_max', 'off_min', 'off_max', 'starts_max', 'hours_max', 'hours_min', 'eff_switch', 'eff_run', 'force_switch']
        for k in rng.sample(pool, rng.randint(0, 4)):
            if k in ('on_min', 'off_min'):
                o[k] = self.tvv(1.1 * dtm, 3.2 * dtm, 2, p=0.25)
            elif k in ('on_max', 'off_max'):
                o[k] = self.tvv(1.2 * dtm, 4.2 * dtm, 2, p=0.25)
                if isinstance(o[k], list):
                    o[k] = [max(x, round(max(self.sp['dt']) + 0.1, 2)) for x in o[k]]
            elif k == 'starts_max':
                o[k] = rng.randint(1, 2)
            elif k == 'hours_max':
                o[k] = round(T * r2(rng, 0.3, 0.8), 2)
            elif k == 'hours_min':
                o[k] = round(T * r2(rng, 0.2, 0.6), 2)
            elif k == 'eff_switch':
                o[k] = self.effvals(1, 25, 1)
            elif k == 'eff_run':
                o[k] = self.effvals(-3 if rng.random() < 0.3 else 0.3, 6, 2)
            else:
                o[k] = True
        for w in ('on', 'off'):
            a, b = o.get(w + '_min'), o.get(w + '_max')
            if a is not None and b is not None and np.max(a) > np.min(b):
                o.pop(w + '_max')
        if 'hours_min' in o and 'hours_max' in o and o['hours_min'] > o['hours_max']:
            o.pop('hours_max')
        return o

    def cost(self):
        rng = self.rng
        if rng.random() < 0.15:
            return None
        a, b = (-6, 8) if self.chance('neg') else (0.5, 12)
        return self.effvals(a, b)

    def add_source(self, bus):
        rng = self.rng
        l = self.label('src')
        f = self.flow('q', bus, cost=self.cost())
        if rng.random() < 0.2 and 'onoff' not in f:
            prof = [r2(rng, 0, 1) for _ in range(self.n)]
            f['profile'] = prof
            f.pop('rmin', None), f.pop('rmax', None)
            self.no_limits(f)
        elif self.chance('none_size') and 'onoff' not in f and not isinstance(f['size'], dict):
            f['size'] = None
            f['eff'] = self.effvals(1, 9)
            f.pop('rmin', None), f.pop('rmax', None), f.pop('prev', None)
            for k in ('fh_max', 'fh_min', 'lf_max', 'lf_min'):
                f.pop(k, None)
            std = S.standard_effect(self.sp)
            if isinstance(f['eff'], dict) and S.objective_effect(self.sp) not in f['eff']:
                f['eff'][S.objective_effect(self.sp)] = 5.0
            elif not isinstance(f['eff'], dict) and std != S.objective_effect(self.sp):
                f['size'] = 50.0
        self.sp['comps'].append({'label': l, 'kind': 'Source', 'flows': {'out': f}})

    def no_limits(self, f):
        for k in ('fh_max', 'fh_min', 'lf_max', 'lf_min'):
            f.pop(k, None)

    def add_sink(self, bus):
        rng = self.rng
        l = self.label('snk')
        if rng.random() < 0.6:
            f = {'label': 'q', 'bus': bus, 'size': 1.0, 'profile': [r2(rng, 0, 15, 1) for _ in range(self.n)]}
            if rng.random() < 0.5:
                s = self.base_size()
                f['size'], f['profile'] = s, [r2(rng, 0, 1) for _ in range(self.n)]
                if rng.random() < self.p['profile_invest']:
                    f['size'] = self.invest(s)
            if rng.random() < 0.3:
                f['eff'] = self.effvals(-8, 2)
        else:
            f = self.flow('q', bus, cost=self.effvals(-14, 1))
        self.sp['comps'].append({'label': l, 'kind': 'Sink', 'flows': {'in': f}})

    def add_srcsink(self, bus):
        rng = self.rng
        l = self.label('grid')
        c = {'label': l, 'kind': 'SourceAndSink', 'prevent': rng.random() < 0.6,
             'flows': {'in': self.flow('sell', bus, cost=self.effvals(-6, -0.5)), 'out': self.flow('buy', bus, cost=self.effvals(1, 9))}}
        self.fix_prev(c)
        self.sp['comps'].append(c)

    def fix_prev(self, c):
        """histories of one component have the same shape"""
        ps = [f for _, f in S.flows_of(c) if f.get('prev') is not None]
        lens = {len(f['prev']) if isinstance(f['prev'], list) else 0 for f in ps}
        if len(lens) > 1:
            for f in ps[1:]:
                f.pop('prev')

    def add_converter(self, bus):
        rng = self.rng
        l = self.label('conv')
        other = [b for b in self.B if b != bus] or self.B
        k = rng.choice(['Converter', 'Converter', 'Boiler', 'Power2Heat', 'HeatPump', 'CoolingTower', 'CHP', 'HeatPumpWithSource'])
        c = {'label': l, 'kind': k}
        comp_on = self.chance(self.p['onoff'] * 0.7)
        seg = k == 'Converter' and self.chance('segments')
        kw = dict(zero=not seg, allow_invest=not seg, allow_rmin=not comp_on or rng.random() < 0.5, allow_onoff=True)
        b2, b3 = rng.choice(other), rng.choice(self.B)

        def side(lab, b, main=True):
            return self.flow(lab, b, cost=self.cost() if rng.random() < 0.4 else None,
                             **dict(kw, allow_invest=kw['allow_invest'] and main), allow_limits=main, size_scale=1 if main else 2)
        if k == 'Boiler':
            c['eta'] = self.tvv(0.6, 0.98)
            c['flows'] = {'fuel': side('fuel', b2, False), 'th': side('th', bus)}
        elif k == 'Power2Heat':
            c['eta'] = self.tvv(0.8, 0.99)
            c['flows'] = {'el': side('el', b2, False), 'th': side('th', bus)}
        elif k == 'HeatPump':
            c['COP'] = self.tvv(1.5, 5)
            c['flows'] = {'el': side('el', b2), 'th': side('th', bus)}
        elif k == 'CoolingTower':
            c['spec'] = self.tvv(0.02, 0.4)
            c['flows'] = {'el': side('el', b2, False), 'th': side('th', bus)}
        elif k == 'CHP':
            c['eta_th'], c['eta_el'] = self.tvv(0.3, 0.6), self.tvv(0.15, 0.38)
            c['flows'] = {'fuel': side('fuel', b3, False), 'th': side('th', bus), 'el': side('el', b2)}
        elif k == 'HeatPumpWithSource':
            c['COP'] = self.tvv(1.5, 5)
            c['flows'] = {'el': side('el', b2), 'ab': side('ab', b3, False), 'th': side('th', bus)}
        else:
            ni, no = rng.randint(1, 2), rng.randint(1, 2)
            ins = [side(f'in{i}', rng.choice(other)) for i in range(ni)]
            outs = [side(f'out{i}', bus if i == 0 else b3) for i in range(no)]
            c['flows'] = {'ins': ins, 'outs': outs}
            fl = ins + outs
            if seg:
                ks = rng.randint(1, 3)
                pts = {}
                for f in fl:
                    f.pop('rmin', None), f.pop('profile', None), f.pop('rmax', None)
                    top = f['size']
                    xs = sorted(round(top * rng.random(), 2) for _ in range(2 * ks))
                    if rng.random() < 0.35:
                        xs[0] = 0.0
                    segs = [[xs[2 * i], xs[2 * i + 1]] for i in range(ks)]
                    if rng.random() < 0.5:  # connected
                        for i in range(1, ks):
                            segs[i][0] = segs[i - 1][1]
                    if rng.random() < 0.25:  # time-dependent support point
                        i = rng.randrange(ks)
                        a = segs[i][1]
                        segs[i][1] = [round(min(top, a * r2(rng, 0.9, 1.1)), 2) for _ in range(self.n)]
                    pts[f['label']] = segs
                c['segments'] = pts
                if rng.random() < 0.5:
                    comp_on = True
            else:
                nr = rng.randint(1, len(fl) - 1)
                c['factors'] = []
                labs_in, labs_out = [f['label'] for f in ins], [f['label'] for f in outs]
                used = set()
                for j in range(nr):
                    li = rng.sample(labs_in, rng.randint(1, len(labs_in)))
                    lo = [labs_out[j % len(labs_out)]] if rng.random() < 0.7 else list(labs_out)
                    rule = {x: self.tvv(0.3, 1.5, sparse=True) for x in li + lo}
                    if tuple(sorted(rule)) in used:
                        continue
                    used.add(tuple(sorted(rule)))
                    c['factors'].append(rule)
        if comp_on:
            c['onoff'] = self.onoff()
        self.fix_prev(c)
        self.sp['comps'].append(c)

    def add_storage(self, bus):
        rng = self.rng
        l = self.label('sto')
        cap = self.base_size() * rng.choice([1, 2, 4])
        c = {'label': l, 'kind': 'Storage', 'prevent': rng.random() < 0.6}
        c['flows'] = {'charge': self.flow('in', bus, cost=self.cost() if rng.random() < 0.3 else None, allow_rmin=rng.random() < 0.3),
                      'discharge': self.flow('out', bus, cost=self.cost() if rng.random() < 0.3 else None, allow_rmin=rng.random() < 0.3)}
        inv = self.chance(self.p['invest'] * 0.8)
        c['capacity'] = self.invest(cap) if inv else cap
        if rng.random() < 0.3:
            c['cs_min'] = self.tvv(0.02, 0.25, sparse=True)
        if rng.random() < 0.3:
            c['cs_max'] = self.tvv(0.6, 1.0)
        for k, d in (('cs_min', 0.03), ('cs_max', -0.05)):
            if isinstance(c.get(k), list) and rng.random() < 0.5:  # one value per charge state
                c[k] = c[k] + [round(c[k][-1] + d, 2)]
        q = rng.random()
        low = cap * (max(np.max(c.get('cs_min', 0)), 0))
        if q < 0.2:
            c['initial'] = 'lastValueOfSim'
        elif q < 0.4:
            c['initial'] = None
        elif q < 0.9 or low > 0:
            c['initial'] = round(low + (0.55 * cap - low) * rng.random(), 2)
        if inv and c['capacity'].get('optional') and isinstance(c.get('initial', 0), (int, float)) and rng.random() < 0.6:
            c['initial'] = 0
            c.pop('cs_min', None)
        if rng.random() < 0.35:
            c['final_min'] = round(cap * r2(rng, 0.05, 0.5), 2)
        if rng.random() < 0.3:
            c['final_max'] = round(max(c.get('final_min', 0), low) + cap * r2(rng, 0.05, 0.4), 2)
        if rng.random() < 0.7:
            c['eta_c'] = self.tvv(0.7, 1.0)
        if rng.random() < 0.7:
            c['eta_d'] = self.tvv(0.7, 1.0)
        if rng.random() < 0.6:
            c['loss'] = self.tvv(0.0, 0.12, 3, sparse=True)
        self.fix_prev(c)
        self.sp['comps'].append(c)

    def add_transmission(self, bus):
        rng = self.rng
        other = [b for b in self.B if b != bus]
        if not other:
            return self.add_source(bus)
        b2 = rng.choice(other)
        l = self.label('line')
        kw = dict(allow_limits=False)
        f = {'in1': self.flow('a_in', bus, **kw), 'out1': self.flow('b_out', b2, allow_invest=False, size_scale=2, allow_rmin=False, **kw)}
        if rng.random() < 0.6:
            f['in2'] = self.flow('b_in', b2, allow_invest=False, allow_rmin=not isinstance(f['in1']['size'], dict), **kw)
            f['out2'] = self.flow('a_out', bus, allow_invest=False, size_scale=2, allow_rmin=False, **kw)
        c = {'label': l, 'kind': 'Transmission', 'flows': f, 'prevent': rng.random() < 0.6}
        if rng.random() < 0.7:
            c['rel_loss'] = self.tvv(0.01, 0.2, sparse=True)
        q = rng.random()
        if q < 0.5:
            c['abs_loss'] = self.tvv(0.1, 1.5, sparse=True)
        elif q < 0.6:
            c['abs_loss'] = 0
        if self.chance(self.p['onoff'] * 0.5):
            c['onoff'] = self.onoff()
        self.fix_prev(c)
        self.sp['comps'].append(c)

    def effect_limits(self):
        rng = self.rng
        for e in self.sp['effects']:
            if not self.chance(self.p['fx_limits'] * 0.6):
                continue
            k = rng.choice(['max_op', 'min_op', 'max_inv', 'min_inv', 'max_total', 'min_total', 'max_ph', 'min_ph'])
            mag = r2(rng, 20, 400, 0)
            if k == 'max_ph':
                e[k] = self.tvv(20, 120, 0)
            elif k == 'min_ph':
                e[k] = self.tvv(-60, 0, 0)
            elif k in ('min_inv', 'max_inv'):
                e[k] = r2(rng, 5, 80, 0) if k == 'max_inv' else r2(rng, 0, 15, 0)
            elif k.startswith('max'):
                e[k] = mag
            else:
                e[k] = round(-0.5 * mag)


def tighten(rng, spec, ref, x, count=2):
    """Place limits next to the reference optimum so that they bind."""
    sp = copy.deepcopy(spec)
    n, dt = sp['n'], np.asarray(sp['dt'])
    cands = []
    for c in sp['comps']:
        for _, f in S.flows_of(c):
            v = float(np.dot(x[ref.flow[(c['label'], f['label'])]], dt))
            if f.get('size') is not None and f.get('profile') is None:
                cands.append(('fh', f, v))
        if c['kind'] == 'Storage':
            cands.append(('final', c, float(x[ref.charge[c['label']][-1]])))
    for e in sp['effects']:
        l = e['label']
        cands.append(('fxop', e, float(np.sum(x[ref.op[l]]))))
        cands.append(('fxinv', e, float(x[ref.invest[l]])))
        cands.append(('fxtot', e, float(np.sum(x[ref.op[l]]) + x[ref.invest[l]])))
        cands.append(('fxph', e, x[ref.op[l]] / dt))
    for key, on in list(ref.on.items()) + list(ref.con.items()):
        cands.append(('on', key, x[on]))
    rng.shuffle(cands)
    for kind, o, v in cands[:count]:
        up = rng.random() < 0.5
        d = rng.choice([0.1, 0.3, 0.6])
        if kind == 'fh':
            if up and v > 1:
                o['fh_max'] = round(v * (1 - d), 3)
                o.pop('fh_min', None), o.pop('lf_min', None)
            elif not up:
                o['fh_min'] = round(v * (1 + d) + 0.5, 3)
                o.pop('fh_max', None), o.pop('lf_max', None)
        elif kind == 'final':
            if up:
                o['final_max'] = round(max(0.0, v * (1 - d)), 3)
                o.pop('final_min', None)
            else:
                o['final_min'] = round(v + d * 5, 3)
                o.pop('final_max', None)
        elif kind in ('fxop', 'fxinv', 'fxtot'):
            suf = {'fxop': 'op', 'fxinv': 'inv', 'fxtot': 'total'}[kind]
            step = max(1.0, abs(v) * d * 0.5)
            if up:
                o['max_' + suf] = round(v - step, 2)
                o.pop('min_' + suf, None)
            else:
                o['min_' + suf] = round(v + step, 2)
                o.pop('max_' + suf, None)
        elif kind == 'fxph':
            if up:
                o['max_ph'] = round(float(np.max(v)) * 0.8 + 0.01 if np.max(v) > 0 else float(np.max(v)) * 1.2 + 0.01, 2)
                o.pop('min_ph', None)
            else:
                o['min_ph'] = round(float(np.min(v)) * 0.8 - 0.01 if np.min(v) < 0 else float(np.min(v)) * 1.05, 2)
                o.pop('max_ph', None)
        elif kind == 'on':
            pars = None
            for c in sp['comps']:
                if c['label'] == o and c.get('onoff') is not None:
                    pars = c['onoff']
                for _, f in S.flows_of(c):
                    if (c['label'], f['label']) == o and f.get('onoff') is not None:
                        pars = f['onoff']
            if pars is None:
                continue
            st = np.round(v).astype(int)
            hours = float(np.dot(st, dt))
            starts = int(np.sum((st[1:] == 1) & (st[:-1] == 0)))
            q = rng.randrange(4)
            if q == 0 and hours > 0:
                pars['hours_max'] = round(hours - float(min(dt)) * 0.5, 3)
                pars.pop('hours_min', None)
            elif q == 1 and hours < sum(dt):
                pars['hours_min'] = round(hours + float(min(dt)) * 0.5, 3)
                pars.pop('hours_max', None)
            elif q == 2 and starts > 0:
                pars['starts_max'] = starts
            elif q == 3 and 0 < hours < sum(dt):
                w = rng.choice(['on', 'off'])
                pars[w + '_min'] = round(float(np.median(dt)) * rng.choice([1.5, 2.0, 2.5]), 3)
                pars.pop(w + '_max', None)
    return sp


def _relaxations(sp, rng):
    """steps that make a system easier to operate, mildest first"""
    none = [b for b in sp['buses'] if b.get('penalty') is None]
    rng.shuffle(none)

    def bus(b):
        return lambda: b.__setitem__('penalty', float(rng.randint(20, 120)))

    def drop(objs, keys):
        def f():
            for o in objs:
                for k in keys:
                    o.pop(k, None)
        return f
    flows = [f for c in sp['comps'] for _, f in S.flows_of(c)]
    onoffs = [o['onoff'] for o in flows + sp['comps'] if o.get('onoff')]
    stores = [c for c in sp['comps'] if c['kind'] == 'Storage']
    steps = [bus(b) for b in none]
    steps.append(drop(sp['effects'], ('max_op', 'min_op', 'max_inv', 'min_inv', 'max_total', 'min_total', 'max_ph', 'min_ph')))
    steps.append(drop(flows, ('fh_min', 'lf_min')))
    steps.append(drop(stores, ('final_min', 'final_max')))
    steps.append(drop(onoffs, ('on_max', 'off_max', 'hours_min', 'starts_max')))
    steps.append(drop(onoffs, ('on_min', 'off_min', 'hours_max')))
    steps.append(drop(flows, ('fh_max', 'lf_max')))
    return steps


NAMES = {
    'comp': ['Wärmepumpe', 'CHP unit', 'CHP', 'CHP2', 'CHP_2', 'a', 'A', 'Boiler-1', 'Boiler.1', 'PV (roof)', '1', '11', 'Time', 'Flow', 'Kessel, klein', 'x' * 60, '100 %'],
    'flow': ['Q_th', 'Q_th2', 'Größe', 'a b', '1', 'x', 'X', 'in', 'in_1', 'flow', 'P-el', 'q.1', 'Q,th', 'y' * 40],
    'bus': ['Fernwärme', 'heat 2', 'B', 'b', 'Strom-Netz', '2', 'Bus', 'bus.a', 'Bus (1)'],
    'effect': ['Kosten', 'CO2 eq', 'costs_2', 'cost', 'costs', 'PE', '3', 'Effect', 'Total', '€', 'CO₂ [t]'],
}


def relabel(rng, sp):
    """the same system under labels as users choose them"""
    used = set()

    def new(kind, taken=()):
        left = [x for x in NAMES[kind] if x not in used and x not in taken]
        x = rng.choice(left)
        if kind != 'flow':
            used.add(x)
        return x

    effects = {e['label']: new('effect') for e in sp['effects']}
    buses = {b['label']: new('bus') for b in sp['buses']}

    def eff(d, *keys):
        for k in keys:
            if isinstance(d.get(k), dict):
                d[k] = {effects[e]: v for e, v in d[k].items()}

    def size(i):
        if isinstance(i, dict):
            eff(i, 'fix', 'spec', 'divest')
            if i.get('segments'):
                eff(i['segments'], 'eff')

    def onoff(o):
        if isinstance(o, dict):
            eff(o, 'eff_switch', 'eff_run')

    for e in sp['effects']:
        e['label'] = effects[e['label']]
        eff(e, 'op_share', 'inv_share')
    for b in sp['buses']:
        b['label'] = buses[b['label']]
    for c in sp['comps']:
        c['label'] = new('comp')
        flows = {}
        for f in [g for x in c['flows'].values() for g in (x if isinstance(x, list) else [x])]:
            flows[f['label']] = f['label'] = new('flow', flows.values()) if f['label'] not in flows else flows[f['label']]
            f['bus'] = buses[f['bus']]
            eff(f, 'eff')
            size(f.get('size'))
            onoff(f.get('onoff'))
        size(c.get('capacity'))
        onoff(c.get('onoff'))
        if c.get('factors'):
            c['factors'] = [{flows[l]: v for l, v in r.items()} for r in c['factors']]
        if c.get('segments'):
            c['segments'] = {flows[l]: v for l, v in c['segments'].items()}
    return sp


def feasible_system(rng, focus=None, keep_infeasible=0.12, tighten_p=0.5, **over):
    """-> (spec, status, value); mostly feasible systems, sometimes under unusual labels"""
    sp, st, v = _feasible_system(rng, focus, keep_infeasible, tighten_p, **over)[:3]
    if rng.random() < 0.12:
        relabel(rng, sp)
    return sp, st, v


def _feasible_system(rng, focus, keep_infeasible, tighten_p, **over):
    """-> (spec, status, value, x, ref)"""
    from .refmodel import Ref
    for _ in range(20):
        sp = Gen(rng, focus, **over).make()
        ref = Ref(sp)
        st, v, x = ref.solve()
        if st == 'infeasible' and rng.random() >= keep_infeasible:
            for step in _relaxations(sp, rng):
                step()
                ref = Ref(sp)
                st, v, x = ref.solve()
                if st != 'infeasible':
                    break
            else:
                continue
        if st == 'optimal' and rng.random() < tighten_p:
            sp2 = tighten(rng, sp, ref, x, rng.randint(1, 3))
            ref2 = Ref(sp2)
            st2, v2, x2 = ref2.solve()
            if st2 == 'optimal' or (st2 == 'infeasible' and rng.random() < keep_infeasible):
                return sp2, st2, v2, x2, ref2
        if st in ('optimal', 'infeasible'):
            return sp, st, v, x, ref
    raise RuntimeError('no system found')
