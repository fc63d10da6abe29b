"""Independent reference model: a spec -> MILP written directly from the stated
rules (not from flixOpt's formulation), solved with scipy/HiGHS.

Run-length rules are stated as forbidden on/off patterns, piecewise-linear
parts with a position variable, and effects by accumulating contributions, so
that agreement with flixOpt is agreement of two separate formulations.
"""
import numpy as np
from scipy import sparse
from scipy.optimize import Bounds, LinearConstraint, milp

from . import spec as S

EPS = 1e-3   # the simulator configures CONFIG.modeling.EPSILON to this value
BIG = 1e7
INF = np.inf


def upper_size(i):
    """greatest size of an investment; 0 is a value like any other"""
    for k in ('fixed', 'max'):
        if i.get(k) is not None:
            return i[k]
    return BIG


def prev_states(flows_prev):
    """on/off history before the first step; several flows: on if any is on"""
    given = [np.atleast_1d(np.asarray(p, dtype=float)) for p in flows_prev if p is not None]
    if not given:
        return np.array([0])
    return np.any([np.abs(g) > EPS for g in given], axis=0).astype(int)


def run_before(states, prev_dt, value):
    """hours the state had `value` immediately before the first step"""
    k = 0
    for s in states[::-1]:
        if s != value:
            break
        k += 1
    if k == 0:
        return 0.0
    if np.isscalar(prev_dt):
        return k * float(prev_dt)
    d = np.asarray(prev_dt, dtype=float)
    return float(np.sum(d[-k:]))


class Ref:
    def __init__(self, spec):
        self.spec = spec
        self.n = spec['n']
        self.dt = S.steps_hours(spec)
        self.lb, self.ub, self.integ = [], [], []
        self.rows, self.cols, self.vals, self.rlo, self.rhi = [], [], [], [], []
        self.nrows = 0
        self.flow, self.on, self.con, self.size, self.inv, self.charge = {}, {}, {}, {}, {}, {}
        self.bus_in, self.bus_out, self.starts = {}, {}, {}
        self._build()

    # -- primitives
    def var(self, k=None, lo=0.0, hi=INF, integer=False):
        m = 1 if k is None else k
        i0 = len(self.lb)
        self.lb += list(np.broadcast_to(np.asarray(lo, float), (m,)))
        self.ub += list(np.broadcast_to(np.asarray(hi, float), (m,)))
        self.integ += [1 if integer else 0] * m
        return i0 if k is None else np.arange(i0, i0 + k)

    def con_(self, terms, lo, hi):
        for c, v in terms:
            if v != 0:
                self.rows.append(self.nrows)
                self.cols.append(int(c))
                self.vals.append(float(v))
        self.rlo.append(lo)
        self.rhi.append(hi)
        self.nrows += 1

    def eq(self, terms, rhs=0.0):
        self.con_(terms, rhs, rhs)

    def le(self, terms, rhs=0.0):
        self.con_(terms, -INF, rhs)

    # -- contributions to effects
    def add_op(self, effs, idx, factor):
        """op[e][t] += value[t]*factor[t]*x[idx[t]]"""
        for e, v in S.norm_effects(self.spec, effs).items():
            self.op_terms[e].append((idx, S.tv(v, self.n) * factor))

    def add_inv(self, effs, idx, factor):
        for e, v in S.norm_effects(self.spec, effs).items():
            if idx is None:
                self.inv_const[e] += float(v) * factor
            else:
                self.inv_terms[e].append((idx, float(v) * factor))

    def _invest(self, key, i):
        """returns (size var, smin, smax)"""
        fixed, opt = i.get('fixed'), bool(i.get('optional', True))
        smin = fixed if fixed is not None else (i.get('min') or 0.0)
        smax = upper_size(i)
        if opt:
            s = self.var(None, 0.0, smax)
            y = self.var(None, 0, 1, True)
            if fixed is not None:
                self.eq([(s, 1), (y, -fixed)])
            else:
                self.le([(s, 1), (y, -smax)])
                self.le([(s, -1), (y, max(EPS, smin))])
        else:
            s = self.var(None, smin, smax)
            y = None
        self.size[key], self.inv[key] = s, y
        if i.get('fix') is not None:
            self.add_inv(i['fix'], y, 1)
        if i.get('divest') is not None and y is not None:
            self.add_inv(i['divest'], None, 1)
            self.add_inv(i['divest'], y, -1)
        if i.get('spec') is not None:
            self.add_inv(i['spec'], s, 1)
        if i.get('segments'):
            pts = i['segments']['size']
            z = self.var(len(pts), 0, 1, True)
            u = self.var(len(pts), 0, 1)
            for a, b in zip(z, u):
                self.le([(b, 1), (a, -1)])
            if y is None:
                self.eq([(a, 1) for a in z], 1)
            else:
                self.eq([(a, 1) for a in z] + [(y, -1)])
            self.eq([(s, -1)] + [(a, p[0]) for a, p in zip(z, pts)] + [(b, p[1] - p[0]) for b, p in zip(u, pts)])
            for e, ep in i['segments']['eff'].items():
                for a, b, p in zip(z, u, ep):
                    self.inv_terms[e].append((a, p[0]))
                    self.inv_terms[e].append((b, p[1] - p[0]))
        return s, smin, smax

    def _onoff(self, key, on, o, prev):
        n, dt = self.n, self.dt
        pdt = S.prev_dt(self.spec)
        states = prev_states(prev)
        sw = self.var(n, 0, 1, True)
        swo = self.var(n, 0, 1, True)
        self.starts[key] = sw
        for t in range(n):
            terms = [(sw[t], 1), (swo[t], -1), (on[t], -1)]
            if t:
                terms.append((on[t - 1], 1))
                self.eq(terms)
            else:
                self.eq(terms, -float(states[-1]))
            self.le([(sw[t], 1), (swo[t], 1)], 1)
        if o.get('starts_max') is not None:
            self.le([(x, 1) for x in sw], o['starts_max'])
        if o.get('hours_max') is not None:
            self.le([(on[t], dt[t]) for t in range(n)], o['hours_max'])
        if o.get('hours_min') is not None:
            self.le([(on[t], -dt[t]) for t in range(n)], -o['hours_min'])
        for val, kmin, kmax in ((1, 'on_min', 'on_max'), (0, 'off_min', 'off_max')):
            before = run_before(states, pdt, val)

            def lit(t, want):
                """(const, coef) of the 0/1 expression [state_t == want]"""
                if t < 0:
                    return (1.0 if states[-1] == want else 0.0), None
                return (0.0, (on[t], 1.0)) if want == 1 else (1.0, (on[t], -1.0))

            def forbid(pattern):
                # not all literals true: sum <= len-1
                c0, terms = 0.0, []
                for t, want in pattern:
                    c, term = lit(t, want)
                    c0 += c
                    if term:
                        terms.append(term)
                self.le(terms, len(pattern) - 1 - c0)

            if o.get(kmax) is not None:
                mx = S.tv(o[kmax], n)
                for t in range(n):
                    for s in range(t + 1):
                        d = float(np.sum(dt[s:t + 1])) + (before if s == 0 else 0.0)
                        if d > mx[t] + 1e-9:
                            self.le([(on[j], 1.0 if val else -1.0) for j in range(s, t + 1)],
                                    (t - s) - (0 if val else (t - s + 1)))
            if o.get(kmin) is not None:
                mn = S.tv(o[kmin], n)
                for t in range(n - 1):
                    for s in range(t + 1):
                        d = float(np.sum(dt[s:t + 1])) + (before if s == 0 else 0.0)
                        if d < mn[t] - 1e-9:
                            pat = [(j, val) for j in range(s, t + 1)] + [(t + 1, 1 - val)]
                            if s > 0:
                                pat.append((s - 1, 1 - val))
                            forbid(pat)
                if 0 < before < mn[0] - 1e-9:
                    forbid([(0, 1 - val)])
        if o.get('eff_switch') is not None:
            self.add_op(o['eff_switch'], sw, np.ones(n))
        if o.get('eff_run') is not None:
            self.add_op(o['eff_run'], on, dt)

    def _build(self):
        sp, n, dt = self.spec, self.n, self.dt
        labels = [e['label'] for e in sp['effects']]
        self.op_terms = {l: [] for l in labels}
        self.inv_terms = {l: [] for l in labels}
        self.inv_const = {l: 0.0 for l in labels}
        pen_terms = []
        bus_terms = {b['label']: [[] for _ in range(n)] for b in sp['buses']}

        for c in sp['comps']:
            cl = c['label']
            ons = S.flows_with_onoff(c)
            for role, f in S.flows_of(c):
                key = (cl, f['label'])
                x = self.var(n, 0.0, INF)
                self.flow[key] = x
                lo, hi = S.tv(f.get('rmin', 0), n), S.tv(f.get('rmax', 1), n)
                if f.get('profile') is not None:
                    lo = hi = S.tv(f['profile'], n)
                size = f.get('size')
                size = BIG if size is None else size
                mirror = None
                if (c['kind'] == 'Transmission' and 'in2' in c['flows'] and f is c['flows']['in2']
                        and isinstance(c['flows']['in1'].get('size'), dict)):
                    mirror = self.size[(cl, c['flows']['in1']['label'])]
                    i1 = c['flows']['in1']['size']
                    s, smin, smax = mirror, 0.0, upper_size(i1)
                elif isinstance(size, dict):
                    s, smin, smax = self._invest(key, size)
                else:
                    s = None
                on = None
                if f['label'] in ons:
                    on = self.var(n, 0, 1, True)
                    self.on[key] = on
                for t in range(n):
                    if s is None:
                        if on is None:
                            self.lb[x[t]], self.ub[x[t]] = lo[t] * size, hi[t] * size
                        else:
                            self.ub[x[t]] = max(hi[t] * size, 0)
                            self.le([(x[t], 1), (on[t], -hi[t] * size)])
                            self.le([(x[t], -1), (on[t], max(EPS, lo[t] * size))])
                    else:
                        self.le([(x[t], 1), (s, -hi[t])])
                        if on is None:
                            self.le([(x[t], -1), (s, lo[t])])
                        else:
                            M = hi[t] * smax
                            self.le([(x[t], 1), (on[t], -M)])
                            self.le([(x[t], -1), (on[t], max(EPS, lo[t] * smin))])
                            self.le([(x[t], -1), (s, lo[t]), (on[t], M)], M)
                # totals
                fh = [(x[t], dt[t]) for t in range(n)]
                if f.get('fh_max') is not None:
                    self.le(fh, f['fh_max'])
                if f.get('fh_min') is not None:
                    self.le([(a, -b) for a, b in fh], -f['fh_min'])
                T = float(np.sum(dt))
                for k, sg in (('lf_max', 1), ('lf_min', -1)):
                    if f.get(k) is not None:
                        terms = [(a, sg * b) for a, b in fh]
                        if s is None:
                            self.le(terms, sg * f[k] * T * size)
                        else:
                            self.le(terms + [(s, -sg * f[k] * T)])
                if f.get('eff') is not None:
                    self.add_op(f['eff'], x, dt)
                if on is not None:
                    self._onoff(key, on, f.get('onoff') or {}, [f.get('prev')])
                for t in range(n):
                    bus_terms[f['bus']][t].append((x[t], 1 if role == 'out' else -1))
            if c.get('onoff') is not None:
                con = self.var(n, 0, 1, True)
                self.con[cl] = con
                keys = [(cl, f['label']) for _, f in S.flows_of(c)]
                for t in range(n):
                    for k in keys:
                        self.le([(self.on[k][t], 1), (con[t], -1)])
                    self.le([(con[t], 1)] + [(self.on[k][t], -1) for k in keys])
                self._onoff(cl, con, c['onoff'], [f.get('prev') for _, f in S.flows_of(c)])
            for g in S.exclusive_groups(c):
                for t in range(n):
                    self.le([(self.on[(cl, l)][t], 1) for l in g], 1)
            for rule in S.conversion_rules(c, n):
                for t in range(n):
                    self.eq([(self.flow[(cl, l)][t], v[t]) for l, v in rule.items()])
            if c.get('segments'):
                ks = len(next(iter(c['segments'].values())))
                for t in range(n):
                    z = self.var(ks, 0, 1, True)
                    u = self.var(ks, 0, 1)
                    for a, b in zip(z, u):
                        self.le([(b, 1), (a, -1)])
                    if c.get('onoff') is not None:
                        self.eq([(a, 1) for a in z] + [(self.con[cl][t], -1)])
                    else:
                        self.eq([(a, 1) for a in z], 1)
                    for l, pts in c['segments'].items():
                        p0 = [S.tv(p[0], n)[t] for p in pts]
                        p1 = [S.tv(p[1], n)[t] for p in pts]
                        self.eq([(self.flow[(cl, l)][t], -1)] + [(a, q) for a, q in zip(z, p0)]
                                + [(b, r - q) for b, q, r in zip(u, p0, p1)])
            if c['kind'] == 'Transmission':
                rl = S.tv(c.get('rel_loss') or 0 if not isinstance(c.get('rel_loss'), list) else c['rel_loss'], n)
                al = S.tv(c.get('abs_loss') or 0 if not isinstance(c.get('abs_loss'), list) else c['abs_loss'], n)
                for a, b in (('in1', 'out1'), ('in2', 'out2')):
                    if a not in c['flows']:
                        continue
                    ka, kb = (cl, c['flows'][a]['label']), (cl, c['flows'][b]['label'])
                    for t in range(n):
                        terms = [(self.flow[ka][t], 1 - rl[t]), (self.flow[kb][t], -1)]
                        if al[t] != 0:
                            terms.append((self.on[ka][t], -al[t]))
                        self.eq(terms)
            if c['kind'] == 'Storage':
                ch = self.var(n + 1, -INF, INF)
                self.charge[cl] = ch
                cap = c['capacity']
                lo, hi = (S.states(c.get(k, d), n) for k, d in (('cs_min', 0), ('cs_max', 1)))
                if isinstance(cap, dict):
                    s, _, _ = self._invest((cl, None), cap)
                    for t in range(n + 1):
                        self.le([(ch[t], 1), (s, -hi[t])])
                        self.le([(ch[t], -1), (s, lo[t])])
                else:
                    for t in range(n + 1):
                        self.lb[ch[t]], self.ub[ch[t]] = lo[t] * cap, hi[t] * cap
                ini = c.get('initial', 0)
                if ini == 'lastValueOfSim':
                    self.eq([(ch[0], 1), (ch[n], -1)])
                elif ini is not None:
                    self.eq([(ch[0], 1)], ini)
                if c.get('final_max') is not None:
                    self.le([(ch[n], 1)], c['final_max'])
                if c.get('final_min') is not None:
                    self.le([(ch[n], -1)], -c['final_min'])
                ec, ed, ls = (S.tv(c.get(k, d), n) for k, d in (('eta_c', 1), ('eta_d', 1), ('loss', 0)))
                a, b = (self.flow[(cl, c['flows'][k]['label'])] for k in ('charge', 'discharge'))
                for t in range(n):
                    self.eq([(ch[t + 1], 1), (ch[t], -(1 - ls[t] * dt[t])), (a[t], -ec[t] * dt[t]), (b[t], dt[t] / ed[t])])

        for b in sp['buses']:
            l = b['label']
            if b.get('penalty') is not None:
                p = S.tv(b['penalty'], n)
                i, o = self.var(n), self.var(n)
                self.bus_in[l], self.bus_out[l] = i, o
                for t in range(n):
                    bus_terms[l][t] += [(i[t], 1), (o[t], -1)]
                    pen_terms += [(i[t], p[t] * dt[t]), (o[t], p[t] * dt[t])]
            for t in range(n):
                self.eq(bus_terms[l][t])

        self.op = {l: self.var(n, -INF, INF) for l in labels}
        self.invest = {l: self.var(None, -INF, INF) for l in labels}
        self.penalty = self.var(None, -INF, INF)
        self.eq([(self.penalty, -1)] + pen_terms)
        for e in sp['effects']:
            l = e['label']
            inc_op = [(o['label'], S.tv(o['op_share'][l], n)) for o in sp['effects'] if l in (o.get('op_share') or {})]
            inc_inv = [(o['label'], o['inv_share'][l]) for o in sp['effects'] if l in (o.get('inv_share') or {})]
            for t in range(n):
                self.eq([(self.op[l][t], -1)] + [(idx[t], f[t]) for idx, f in self.op_terms[l]]
                        + [(self.op[o][t], v[t]) for o, v in inc_op])
                if e.get('max_ph') is not None:
                    self.ub[self.op[l][t]] = S.tv(e['max_ph'], n)[t] * dt[t]
                if e.get('min_ph') is not None:
                    self.lb[self.op[l][t]] = S.tv(e['min_ph'], n)[t] * dt[t]
            self.eq([(self.invest[l], -1)] + self.inv_terms[l] + [(self.invest[o], v) for o, v in inc_inv], -self.inv_const[l])
            ops = [(x, 1) for x in self.op[l]]
            tot = ops + [(self.invest[l], 1)]
            for terms, kmin, kmax in ((ops, 'min_op', 'max_op'), ([(self.invest[l], 1)], 'min_inv', 'max_inv'), (tot, 'min_total', 'max_total')):
                if e.get(kmax) is not None:
                    self.le(terms, e[kmax])
                if e.get(kmin) is not None:
                    self.le([(a, -b) for a, b in terms], -e[kmin])
        o = S.objective_effect(sp)
        self.obj = np.zeros(len(self.lb))
        for x in self.op[o]:
            self.obj[x] += 1
        self.obj[self.invest[o]] += 1
        self.obj[self.penalty] += 1

    def solve(self, c=None, presolve=True):
        """('optimal', value, x) | ('infeasible', None, None) | ('unknown', ...)"""
        c = self.obj if c is None else c
        A = self.matrix()
        r = milp(c, integrality=np.array(self.integ), bounds=Bounds(self.lb, self.ub),
                 constraints=LinearConstraint(A, self.rlo, self.rhi),
                 options={'mip_rel_gap': 0.0, 'time_limit': 20.0, 'presolve': presolve})
        if r.status == 0:
            return 'optimal', float(r.fun), r.x
        if r.status == 2:
            return 'infeasible', None, None
        if r.status == 3:
            return 'unbounded', None, None
        return 'unknown', None, None

    def matrix(self):
        return sparse.csr_matrix((self.vals, (self.rows, self.cols)), shape=(self.nrows, len(self.lb)))

    def solve_robust(self):
        """best verified answer of several runs (scipy's HiGHS is not infallible)"""
        best, sts = None, set()
        A, lo, hi = self.matrix(), np.array(self.rlo), np.array(self.rhi)
        lb, ub = np.array(self.lb), np.array(self.ub)
        for presolve in (True, False):
            st, v, x = self.solve(presolve=presolve)
            sts.add(st)
            if x is not None and any(self.integ):  # with exact integers
                fixed = np.array(self.integ, bool)
                y = np.round(x)
                r = milp(self.obj, bounds=Bounds(np.where(fixed, y, lb), np.where(fixed, y, ub)), constraints=LinearConstraint(A, lo, hi),
                         options={'presolve': presolve})
                v, x = (float(r.fun), r.x) if r.status == 0 else (v, None)
            if x is not None:
                ax = A @ x
                ok = np.all(ax >= lo - 1e-5) and np.all(ax <= hi + 1e-5) and np.all(x >= lb - 1e-5) and np.all(x <= ub + 1e-5)
                if ok and (best is None or v < best[1]):
                    best = ('optimal', v, x)
        if best is not None:
            return best
        return ('infeasible' if sts == {'infeasible'} else 'unknown'), None, None
