"""Rule checkers: judge one reported result (the dictionary a user gets) against
the stated rules of the system, whatever answer the solver gave."""
import itertools

import numpy as np

from . import spec as S
from .refmodel import BIG, EPS, prev_states, run_before, upper_size
from .sim import Violation


class View:
    """Named access to a results dictionary."""

    def __init__(self, spec, res):
        self.spec, self.res = spec, res
        self.n = spec['n']
        self.dt = S.steps_hours(spec)

    def arr(self, x, k=0):
        a = np.asarray(x, dtype=float)
        return np.array(np.broadcast_to(a, (self.n + k,))) if a.ndim == 0 else a

    def get(self, *path, default=None):
        d = self.res
        for p in path:
            if not isinstance(d, dict) or p not in d:
                return default
            d = d[p]
        return d

    def need(self, *path):
        v = self.get(*path)
        if v is None:
            raise Violation('missing', f'results have no value for {path}')
        return v

    def comp(self, *path):
        return self.need('Components', *path)

    def flow(self, c, f):
        a = self.arr(self.comp(c['label'], f['label'], 'flow_rate'))
        if a.shape != (self.n,):
            raise Violation('shape', f'{c["label"]}.{f["label"]}: {a.shape} rates for {self.n} steps')
        return a


class Checker:
    def __init__(self, spec, res, tol=1e-4, noise=False):
        self.v = View(spec, res)
        self.spec, self.n, self.dt, self.tol = spec, spec['n'], self.v.dt, tol
        self.noise = noise
        self.rules = 0

    # -- helpers
    def fail(self, rule, msg):
        raise Violation(rule, msg)

    def close(self, rule, a, b, scale, msg):
        self.rules += 1
        a, b = np.asarray(a, float), np.asarray(b, float)
        err = np.abs(a - b)
        lim = self.tol * np.maximum(1.0, np.asarray(scale, float))
        if not np.all(np.isfinite(a)) or np.any(err > lim):
            k = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
            self.fail(rule, f'{msg}: {np.ravel(a)[min(k, a.size - 1)]:.6g} instead of {np.ravel(b)[min(k, b.size - 1)]:.6g} (position {k})')

    def leq(self, rule, a, b, scale, msg):
        self.rules += 1
        a, b = np.asarray(a, float), np.asarray(b, float)
        d = a - b
        if not np.all(np.isfinite(a)) or np.any(d > self.tol * np.maximum(1.0, np.asarray(scale, float))):
            k = int(np.argmax(d))
            self.fail(rule, f'{msg}: {np.ravel(np.broadcast_to(a, d.shape))[k]:.6g} exceeds {np.ravel(np.broadcast_to(b, d.shape))[k]:.6g} (position {k})')

    def sizes(self):
        """{key: (size value, smin, smax, y|None)} of everything invested"""
        r = {}
        for c in self.spec['comps']:
            for _, f in S.flows_of(c):
                if isinstance(f.get('size'), dict):
                    r[(c['label'], f['label'])] = (f['size'], float(np.asarray(self.v.comp(c['label'], f['label'], 'Investment', 'size'))))
            if isinstance(c.get('capacity'), dict):
                r[(c['label'], None)] = (c['capacity'], float(np.asarray(self.v.comp(c['label'], 'Investment', 'size'))))
        return r

    def size_of(self, c, f):
        """(value, upper limit)"""
        s = f.get('size')
        if c['kind'] == 'Transmission' and f is c['flows'].get('in2') and isinstance(c['flows']['in1'].get('size'), dict):
            # the size of the first direction applies to both
            return self.size_of(c, c['flows']['in1'])
        if isinstance(s, dict):
            v = float(np.asarray(self.v.comp(c['label'], f['label'], 'Investment', 'size')))
            return v, upper_size(s)
        return (BIG if s is None else s), (BIG if s is None else s)

    def on_of(self, c, f):
        if f['label'] not in S.flows_with_onoff(c):
            return None
        return self.v.arr(self.v.comp(c['label'], f['label'], 'OnOff', 'on'))

    # -- M01
    def M01(self):
        v, spec = self.v, self.spec
        pen = 0.0
        for b in spec['buses']:
            l = b['label']
            if not any(f['bus'] == l for c in spec['comps'] for _, f in S.flows_of(c)):
                continue  # without flows it is no part of the system
            net, scale = np.zeros(self.n), np.zeros(self.n)
            for c in spec['comps']:
                for role, f in S.flows_of(c):
                    if f['bus'] == l:
                        q = v.flow(c, f)
                        net += q if role == 'out' else -q
                        scale = np.maximum(scale, np.abs(q))
            ei, eo = v.get('Buses', l, 'excess_input'), v.get('Buses', l, 'excess_output')
            if b.get('penalty') is None:
                for x in (ei, eo):
                    if x is not None:
                        self.close('balance', v.arr(x), 0, 1, f'bus {l} without penalty reports excess')
            else:
                ei, eo = v.arr(v.need('Buses', l, 'excess_input')), v.arr(v.need('Buses', l, 'excess_output'))
                self.leq('excess', -ei, 0, 1, f'negative shortfall at {l}')
                self.leq('excess', -eo, 0, 1, f'negative surplus at {l}')
                net += ei - eo
                scale = np.maximum(scale, np.abs(ei) + np.abs(eo))
                pen += float(np.sum((ei + eo) * S.tv(b['penalty'], self.n) * self.dt))
            self.close('balance', net, 0, scale, f'bus {l} is not balanced')
        self.close('penalty', float(np.asarray(v.need('Effects', 'penalty', 'penalty_sum'))), pen, abs(pen), 'penalty')

    # -- M02
    def M02(self):
        v = self.v
        T = float(np.sum(self.dt))
        for c in self.spec['comps']:
            for _, f in S.flows_of(c):
                name = f'{c["label"]}.{f["label"]}'
                q = v.flow(c, f)
                size, smax = self.size_of(c, f)
                on = self.on_of(c, f)
                scale = np.maximum(1, np.abs(q)) if size < 1e6 else 1e3 + np.abs(q)
                if f.get('profile') is not None:
                    self.close('profile', q, size * S.tv(f['profile'], self.n), scale, f'{name} does not follow its profile')
                else:
                    hi, lo = S.tv(f.get('rmax', 1), self.n) * size, S.tv(f.get('rmin', 0), self.n) * size
                    if on is not None:
                        o = np.round(on)
                        lo = lo * o
                        hi = hi * o
                    self.leq('rate-max', q, hi, scale, f'{name} above its maximum')
                    self.leq('rate-min', lo, q, scale, f'{name} below its minimum')
                e = float(np.dot(q, self.dt))
                es = max(1.0, float(np.dot(np.abs(q), self.dt)))
                self.close('flow-hours', float(np.asarray(v.comp(c['label'], f['label'], 'sumFlowHours'))), e, es, f'{name} flow-hours')
                if f.get('fh_max') is not None:
                    self.leq('fh-max', e, f['fh_max'], es, f'{name} flow-hours')
                if f.get('fh_min') is not None:
                    self.leq('fh-min', f['fh_min'], e, es, f'{name} minimum flow-hours')
                if f.get('lf_max') is not None:
                    self.leq('lf-max', e, f['lf_max'] * size * T, es, f'{name} load factor')
                if f.get('lf_min') is not None:
                    self.leq('lf-min', f['lf_min'] * size * T, e, es, f'{name} minimum load factor')

    # -- M03
    def M03(self):
        v = self.v
        for c in self.spec['comps']:
            q = {f['label']: v.flow(c, f) for _, f in S.flows_of(c)}
            for rule in S.conversion_rules(c, self.n):
                s = sum(co * q[l] for l, co in rule.items())
                self.close('conversion', s, 0, np.max([np.abs(co * q[l]) for l, co in rule.items()], axis=0), f'{c["label"]} conversion {sorted(rule)}')
            if c.get('segments'):
                con = None
                if c.get('onoff') is not None:
                    con = np.round(v.arr(v.comp(c['label'], 'OnOff', 'on')))
                ks = len(next(iter(c['segments'].values())))
                for t in range(self.n):
                    self.rules += 1
                    pts = {l: [(S.tv(p[0], self.n)[t], S.tv(p[1], self.n)[t]) for p in ps] for l, ps in c['segments'].items()}
                    if con is not None and con[t] == 0:
                        if all(abs(q[l][t]) <= 1e-3 for l in pts):
                            continue
                    elif any(self._on_segment({l: pts[l][k] for l in pts}, {l: q[l][t] for l in pts}) for k in range(ks)):
                        continue
                    self.fail('segment', f'{c["label"]} step {t}: flows {({l: round(float(q[l][t]), 5) for l in pts})} are on no declared segment')
            if c['kind'] == 'Transmission':
                rl = S.tv(c.get('rel_loss') or 0 if not isinstance(c.get('rel_loss'), list) else c['rel_loss'], self.n)
                al = S.tv(c.get('abs_loss') or 0 if not isinstance(c.get('abs_loss'), list) else c['abs_loss'], self.n)
                for a, b in (('in1', 'out1'), ('in2', 'out2')):
                    if a in c['flows']:
                        fa, fb = c['flows'][a], c['flows'][b]
                        qa, qb = q[fa['label']], q[fb['label']]
                        on = (np.abs(qa) > EPS / 2).astype(float)
                        self.close('transmission', qb, qa * (1 - rl) - on * al, np.abs(qa), f'{c["label"]} delivery {a}->{b}')

    def _on_segment(self, pts, q):
        """one position u in [0,1] with q = p0+u*(p1-p0) for all"""
        lo, hi = 0.0, 1.0
        eps = 2e-4
        for l, (a, b) in pts.items():
            d = b - a
            m = eps * max(1.0, abs(a), abs(b))
            if abs(d) < 1e-9:
                if abs(q[l] - a) > m:
                    return False
                continue
            u0, u1 = sorted(((q[l] - a - m) / d, (q[l] - a + m) / d))
            lo, hi = max(lo, u0), min(hi, u1)
        return lo <= hi + 1e-9

    # -- M04
    def M04(self):
        v, n, dt = self.v, self.n, self.dt
        for c in self.spec['comps']:
            if c['kind'] != 'Storage':
                continue
            l = c['label']
            ch = v.arr(v.comp(l, 'charge_state'), 1)
            if ch.shape != (n + 1,):
                self.fail('charge-shape', f'{l}: {ch.shape} charge states for {n} steps')
            a, b = v.flow(c, c['flows']['charge']), v.flow(c, c['flows']['discharge'])
            ec, ed, ls = (S.tv(c.get(k, d), n) for k, d in (('eta_c', 1), ('eta_d', 1), ('loss', 0)))
            exp = ch[:-1] * (1 - ls * dt) + a * ec * dt - b / ed * dt
            sc = np.max([np.abs(ch[1:]), np.abs(ch[:-1]), np.abs(a * dt), np.abs(b / ed * dt)], axis=0)
            self.close('evolution', ch[1:], exp, sc, f'{l} charge state')
            cap = float(np.asarray(v.comp(l, 'Investment', 'size'))) if isinstance(c['capacity'], dict) else c['capacity']
            lo, hi = (S.states(c.get(k, d), n) for k, d in (('cs_min', 0), ('cs_max', 1)))
            self.leq('charge-max', ch, hi * cap, cap, f'{l} charge state')
            self.leq('charge-min', lo * cap, ch, cap, f'{l} minimum charge state')
            ini = c.get('initial', 0)
            if ini == 'lastValueOfSim':
                self.close('cyclic', ch[0], ch[-1], cap, f'{l} cyclic charge state')
            elif ini is not None:
                self.close('initial', ch[0], ini, cap, f'{l} initial charge state')
            if c.get('final_max') is not None:
                self.leq('final-max', ch[-1], c['final_max'], cap, f'{l} final charge state')
            if c.get('final_min') is not None:
                self.leq('final-min', c['final_min'], ch[-1], cap, f'{l} minimum final charge state')
            nd = v.get('Components', l, 'netto_discharge')
            if nd is not None:
                self.close('netto', v.arr(nd), b - a, np.maximum(np.abs(a), np.abs(b)), f'{l} net discharge')
            if c.get('prevent', True):
                self.rules += 1
                both = (a > EPS / 2) & (b > EPS / 2)
                if np.any(both):
                    t = int(np.argmax(both))
                    self.fail('simultaneous', f'{l} charges {a[t]:.4g} and discharges {b[t]:.4g} in step {t}')

    # -- M05
    def M05(self):
        for c in self.spec['comps']:
            ons = S.flows_with_onoff(c)
            for _, f in S.flows_of(c):
                if f['label'] in ons:
                    q = self.v.flow(c, f)
                    self._onoff(f'{c["label"]}.{f["label"]}', (c['label'], f['label']), [q], f.get('onoff') or {}, [f.get('prev')])
            if c.get('onoff') is not None:
                qs = [self.v.flow(c, f) for _, f in S.flows_of(c)]
                self._onoff(c['label'], (c['label'],), qs, c['onoff'], [f.get('prev') for _, f in S.flows_of(c)])
            for g in S.exclusive_groups(c):
                self.rules += 1
                active = sum((self.v.arr(self.v.comp(c['label'], l, 'flow_rate')) > EPS / 2).astype(int) for l in g)
                onsum = sum(np.round(self.v.arr(self.v.comp(c['label'], l, 'OnOff', 'on'))) for l in g)
                if np.any(active > 1) or np.any(onsum > 1):
                    self.fail('exclusive', f'{c["label"]}: {g} are used at once in step {int(np.argmax(np.maximum(active, onsum)))}')

    def _onoff(self, name, path, qs, o, prev):
        v, n, dt = self.v, self.n, self.dt
        d = v.comp(*path, 'OnOff')
        on = v.arr(d['on'])
        self.close('binary', on, np.round(on), 1, f'{name} on is not 0 or 1')
        on = np.round(on)
        act = np.any([np.abs(q) > EPS / 2 for q in qs], axis=0)
        self.rules += 1
        if np.any(act != (on > 0.5)):
            t = int(np.argmax(act != (on > 0.5)))
            self.fail('on', f'{name} reports on={on[t]:.0f} in step {t} with flows {[round(float(q[t]), 6) for q in qs]}')
        if 'off' in d:
            self.close('off', v.arr(d['off']), 1 - on, 1, f'{name} off')
        states = prev_states(prev)
        h = np.concatenate([[states[-1]], on])
        up, down = (np.diff(h) > 0.5).astype(float), (np.diff(h) < -0.5).astype(float)
        if 'switchOn' in d:
            self.close('switch', v.arr(d['switchOn']), up, 1, f'{name} switch-on events')
        if 'switchOff' in d:
            self.close('switch', v.arr(d['switchOff']), down, 1, f'{name} switch-off events')
        if 'nrSwitchOn' in d:
            self.close('starts', float(np.asarray(d['nrSwitchOn'])), np.sum(up), 1, f'{name} number of starts')
        if o.get('starts_max') is not None:
            self.leq('starts-max', np.sum(up), o['starts_max'], 1, f'{name} starts')
        hours = float(np.dot(on, dt))
        if 'totalOnHours' in d:
            self.close('on-hours', float(np.asarray(d['totalOnHours'])), hours, hours, f'{name} on-hours')
        if o.get('hours_max') is not None:
            self.leq('on-hours-max', hours, o['hours_max'], hours, f'{name} on-hours')
        if o.get('hours_min') is not None:
            self.leq('on-hours-min', o['hours_min'], hours, hours, f'{name} minimum on-hours')
        pdt = S.prev_dt(self.spec)
        for val, rep, kmin, kmax in ((1, 'consecutiveOnHours', 'on_min', 'on_max'), (0, 'consecutiveOffHours', 'off_min', 'off_max')):
            before = run_before(states, pdt, val)
            run, k = np.zeros(n), before
            for t in range(n):
                k = k + dt[t] if on[t] == val else 0.0
                run[t] = k
            if rep in d:
                self.close('duration', v.arr(d[rep]), run, np.maximum(1, run), f'{name} {rep}')
            if o.get(kmax) is not None:
                self.leq('run-max', run, S.tv(o[kmax], n), 1, f'{name} {kmax}')
            if o.get(kmin) is not None:
                mn = S.tv(o[kmin], n)
                if 0 < before and on[0] != val:
                    self.leq('run-min', mn[0], before, 1, f'{name} {kmin} of the run before the first step')
                for t in range(n - 1):
                    if on[t] == val and on[t + 1] != val:
                        self.leq('run-min', mn[t], run[t], 1, f'{name} {kmin} of the run ending in step {t}')

    # -- M06
    def M06(self):
        v = self.v
        for (cl, fl), (i, s) in self.sizes().items():
            name = f'{cl}.{fl}' if fl else f'{cl} capacity'
            d = v.comp(cl, fl, 'Investment') if fl else v.comp(cl, 'Investment')
            fixed = i.get('fixed')
            smin = fixed if fixed is not None else (i.get('min') or 0.0)
            smax = upper_size(i)
            use = self._use(cl, fl)
            if i.get('optional', True):
                y = d.get('isInvested')
                if y is None:
                    self.fail('missing', f'{name}: optional investment reports no decision')
                y = float(np.asarray(y))
                self.close('binary', y, round(y), 1, f'{name} decision')
                if round(y) == 0:
                    self.close('declined', s, 0, 1, f'{name} is declined but has a size')
                    self.close('declined', use, 0, 1, f'{name} is declined but used')
                    continue
                if i.get('fixed') is None:
                    self.leq('size-min', EPS, s + 1e-3, 1, f'{name} invested with size 0')
            self.leq('size-max', s, smax, smax, f'{name} size')
            self.leq('size-min', smin, s, smax, f'{name} minimum size')
            self.leq('use', use, s, smax, f'{name} is used beyond its size')
        self._invest_sums()

    def _use(self, cl, fl):
        c = [x for x in self.spec['comps'] if x['label'] == cl][0]
        if fl is None:
            return float(np.max(np.abs(self.v.arr(self.v.comp(cl, 'charge_state'), 1))))
        return float(np.max(np.abs(self.v.arr(self.v.comp(cl, fl, 'flow_rate')) if S.flows_of(c) else 0)))

    def _invest_sums(self):
        """invest totals of every effect"""
        labels = [e['label'] for e in self.spec['effects']]
        base = {l: 0.0 for l in labels}
        options = []
        scale = 1.0
        for (cl, fl), (i, s) in self.sizes().items():
            y = 1.0
            if i.get('optional', True):
                d = self.v.comp(cl, fl, 'Investment') if fl else self.v.comp(cl, 'Investment')
                y = round(float(np.asarray(d['isInvested'])))
            for e, x in S.norm_effects(self.spec, i.get('fix')).items():
                base[e] += x * y
            for e, x in S.norm_effects(self.spec, i.get('spec')).items():
                base[e] += x * s
                scale = max(scale, abs(x * s))
            if i.get('optional', True):
                for e, x in S.norm_effects(self.spec, i.get('divest')).items():
                    base[e] += x * (1 - y)
            if i.get('segments') and y:
                pts = i['segments']['size']
                opt = []
                for k, (a, b) in enumerate(pts):
                    if a - 1e-4 <= s <= b + 1e-4:
                        u = 0.0 if b - a < 1e-12 else min(1.0, max(0.0, (s - a) / (b - a)))
                        us = [u] if b - a > 1e-6 else [0.0, 1.0]
                        for uu in us:
                            opt.append({e: p[k][0] + uu * (p[k][1] - p[k][0]) for e, p in i['segments']['eff'].items()})
                if not opt:
                    self.fail('invest-segment', f'{cl}.{fl}: size {s:.6g} lies on no declared segment')
                options.append(opt)
        rep = {l: float(np.asarray(self.v.need('Effects', l, 'invest', 'invest_sum'))) for l in labels}
        best = None
        for combo in itertools.islice(itertools.product(*options), 64):
            own = dict(base)
            for o in combo:
                for e, x in o.items():
                    own[e] += x
            tot = self._spread(own, 'inv_share')
            err = {l: abs(tot[l] - rep[l]) for l in labels}
            worst = max(err, key=lambda l: err[l] / max(1.0, abs(tot[l]), scale))
            rel = err[worst] / max(1.0, abs(tot[worst]), scale)
            if best is None or rel < best[0]:
                best = (rel, worst, tot[worst])
        self.rules += 1
        if best[0] > 5 * self.tol:
            self.fail('invest-sum', f'investment total of {best[1]}: {rep[best[1]]:.6g} instead of {best[2]:.6g}')

    def _spread(self, own, key):
        """add the shares from other effects (acyclic)"""
        done = {}

        def total(l):
            if l not in done:
                v = own[l]
                for o in self.spec['effects']:
                    sh = (o.get(key) or {}).get(l)
                    if sh is not None:
                        f = S.tv(sh, self.n) if key == 'op_share' else sh
                        v = v + total(o['label']) * f
                done[l] = v
            return done[l]
        return {l: total(l) for l in own}

    # -- M07
    def M07(self):
        v, n, dt, spec = self.v, self.n, self.dt, self.spec
        labels = [e['label'] for e in spec['effects']]
        own = {l: np.zeros(n) for l in labels}
        scale = 1.0

        def add(vals, x):
            nonlocal scale
            for e, k in S.norm_effects(spec, vals).items():
                d = S.tv(k, n) * x
                own[e] = own[e] + d
                scale = max(scale, float(np.max(np.abs(d))))

        def onpart(o, on, prev):
            st = prev_states(prev)
            up = (np.diff(np.concatenate([[st[-1]], on])) > 0.5).astype(float)
            add(o.get('eff_switch'), up)
            add(o.get('eff_run'), on * dt)
        for c in spec['comps']:
            for _, f in S.flows_of(c):
                q = v.flow(c, f)
                add(f.get('eff'), q * dt)
                if f.get('onoff') is not None:
                    onpart(f['onoff'], np.round(self.on_of(c, f)), [f.get('prev')])
            if c.get('onoff') is not None:
                onpart(c['onoff'], np.round(v.arr(v.comp(c['label'], 'OnOff', 'on'))), [f.get('prev') for _, f in S.flows_of(c)])
        tot = self._spread(own, 'op_share')
        for e in spec['effects']:
            l = e['label']
            ts = v.arr(v.need('Effects', l, 'operation', 'operation_sum_TS'))
            self.close('operation-ts', ts, tot[l], np.maximum(scale, np.abs(tot[l])), f'{l} per time step')
            op = float(np.asarray(v.need('Effects', l, 'operation', 'operation_sum')))
            inv = float(np.asarray(v.need('Effects', l, 'invest', 'invest_sum')))
            al = float(np.asarray(v.need('Effects', l, 'all', 'all_sum')))
            self.close('operation-sum', op, np.sum(ts), scale * n, f'{l} operation total')
            self.close('all-sum', al, op + inv, max(scale, abs(op), abs(inv)), f'{l} total')
            for x, kmin, kmax in ((op, 'min_op', 'max_op'), (inv, 'min_inv', 'max_inv'), (al, 'min_total', 'max_total')):
                if e.get(kmax) is not None:
                    self.leq(kmax, x, e[kmax], max(scale, abs(x)), f'{l} {kmax}')
                if e.get(kmin) is not None:
                    self.leq(kmin, e[kmin], x, max(scale, abs(x)), f'{l} {kmin}')
            if e.get('max_ph') is not None:
                self.leq('max_ph', ts, S.tv(e['max_ph'], n) * dt, scale, f'{l} per hour')
            if e.get('min_ph') is not None:
                self.leq('min_ph', S.tv(e['min_ph'], n) * dt, ts, scale, f'{l} minimum per hour')
        self._invest_sums()
        o = S.objective_effect(spec)
        pen = float(np.asarray(v.need('Effects', 'penalty', 'penalty_sum')))
        parts = float(np.asarray(v.need('Effects', o, 'all', 'all_sum')))
        if v.get('Objective') is None:
            self.fail('objective', 'no objective reported')
        self.close('objective', float(v.get('Objective')), parts + pen, max(scale, abs(parts), abs(pen)), 'objective')

    def run(self, families):
        for f in families:
            getattr(self, f)()
        return self.rules
