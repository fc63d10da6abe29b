"""System specifications: plain JSON descriptions of energy systems.

A spec is the single source for (1) the real flixOpt objects (build.py), (2)
the independent reference model (refmodel.py) and (3) the checkers
(checker.py).  Time-dependent values ("tv") are a number or a list of length n.
Effect values are None, {label: tv} or {"*": tv} for the standard effect.
"""
import copy

import numpy as np


def tv(x, n):
    if x is None:
        return None
    a = np.asarray(x, dtype=float)
    if a.ndim == 0:
        return np.full(n, float(a))
    return a


def states(x, n):
    """value per charge state: n values (the last holds at the end, too) or n+1"""
    a = np.asarray(x, dtype=float)
    if a.ndim == 0:
        return np.full(n + 1, float(a))
    return np.append(a, a[-1]) if len(a) == n else a


def steps_hours(spec):
    return np.asarray(spec['dt'], dtype=float)


def prev_dt(spec):
    p = spec.get('prev_dt')
    if p is None:
        # flixOpt derives it from the first two time stamps, so for a one-step
        # difference the first dt
        return float(spec['dt'][0])
    return p


def flows_of(comp):
    """ordered [(role, flow)] inputs first then outputs"""
    k = comp['kind']
    f = comp['flows']
    if k == 'Source':
        return [('out', f['out'])]
    if k == 'Sink':
        return [('in', f['in'])]
    if k == 'SourceAndSink':
        return [('in', f['in']), ('out', f['out'])]
    if k == 'Storage':
        return [('in', f['charge']), ('out', f['discharge'])]
    if k == 'Transmission':
        r = [('in', f['in1'])]
        if 'in2' in f:
            r.append(('in', f['in2']))
        r.append(('out', f['out1']))
        if 'in2' in f:
            r.append(('out', f['out2']))
        return r
    if k == 'Converter':
        return [('in', x) for x in f['ins']] + [('out', x) for x in f['outs']]
    if k == 'Boiler':
        return [('in', f['fuel']), ('out', f['th'])]
    if k == 'Power2Heat' or k == 'HeatPump':
        return [('in', f['el']), ('out', f['th'])]
    if k == 'CoolingTower':
        return [('in', f['el']), ('in', f['th'])]
    if k == 'CHP':
        return [('in', f['fuel']), ('out', f['th']), ('out', f['el'])]
    if k == 'HeatPumpWithSource':
        return [('in', f['el']), ('in', f['ab']), ('out', f['th'])]
    raise ValueError(k)


def conversion_rules(comp, n):
    """list of {flow label: coefficient array}: sum(coef*flow) == 0"""
    k, f = comp['kind'], comp['flows']
    if k == 'Converter':
        if comp.get('segments'):
            return []
        res = []
        ins = {x['label'] for x in f['ins']}
        for rule in comp['factors']:
            res.append({lab: tv(v, n) * (1 if lab in ins else -1) for lab, v in rule.items()})
        return res
    if k == 'Boiler':
        return [{f['fuel']['label']: tv(comp['eta'], n), f['th']['label']: -tv(1, n)}]
    if k == 'Power2Heat':
        return [{f['el']['label']: tv(comp['eta'], n), f['th']['label']: -tv(1, n)}]
    if k == 'HeatPump':
        return [{f['el']['label']: tv(comp['COP'], n), f['th']['label']: -tv(1, n)}]
    if k == 'CoolingTower':
        # electricity used = specific demand * heat
        return [{f['el']['label']: tv(1, n), f['th']['label']: -tv(comp['spec'], n)}]
    if k == 'CHP':
        return [
            {f['fuel']['label']: tv(comp['eta_th'], n), f['th']['label']: -tv(1, n)},
            {f['fuel']['label']: tv(comp['eta_el'], n), f['el']['label']: -tv(1, n)},
        ]
    if k == 'HeatPumpWithSource':
        # heat = electricity * COP ; environment heat = heat - electricity
        return [
            {f['el']['label']: tv(comp['COP'], n), f['th']['label']: -tv(1, n)},
            {f['ab']['label']: tv(1, n), f['el']['label']: tv(1, n), f['th']['label']: -tv(1, n)},
        ]
    return []


def exclusive_groups(comp):
    k, f = comp['kind'], comp['flows']
    if k == 'Storage' and comp.get('prevent', True):
        return [[f['charge']['label'], f['discharge']['label']]]
    if k == 'SourceAndSink' and comp.get('prevent', True):
        return [[f['in']['label'], f['out']['label']]]
    if k == 'Transmission' and 'in2' in f and comp.get('prevent', True):
        return [[f['in1']['label'], f['in2']['label']]]
    return []


def flows_with_onoff(comp):
    """labels of flows with an on/off state (declared or implied)"""
    labs = {fl['label'] for _, fl in flows_of(comp) if fl.get('onoff') is not None}
    if comp.get('onoff') is not None:
        labs |= {fl['label'] for _, fl in flows_of(comp)}
    for g in exclusive_groups(comp):
        labs |= set(g)
    if comp['kind'] == 'Transmission' and comp.get('abs_loss') is not None and np.any(np.asarray(comp['abs_loss']) != 0):
        labs |= {fl['label'] for _, fl in flows_of(comp)}
    return labs


def standard_effect(spec):
    for e in spec['effects']:
        if e.get('standard'):
            return e['label']
    return None


def objective_effect(spec):
    for e in spec['effects']:
        if e.get('objective'):
            return e['label']
    return None


def norm_effects(spec, values):
    """{effect label: raw tv}"""
    if values is None:
        return {}
    if not isinstance(values, dict):
        return {standard_effect(spec): values}
    return {(standard_effect(spec) if k == '*' else k): v for k, v in values.items()}


def slice_spec(spec, a, b):
    """The same system restricted to time steps a..b-1 (for sub-horizon runs)."""
    n = spec['n']
    s = copy.deepcopy(spec)

    def cut(x, extra=0):
        if isinstance(x, list):
            assert len(x) in (n, n + extra), (len(x), n, extra)
            return x[a: b + (len(x) - n)]
        return x

    def cut_eff(v):
        if isinstance(v, dict):
            return {k: cut(x) for k, x in v.items()}
        return cut(v)

    def cut_onoff(o):
        if o is None:
            return None
        o = dict(o)
        for k in ('on_min', 'on_max', 'off_min', 'off_max'):
            if k in o:
                o[k] = cut(o[k])
        for k in ('eff_switch', 'eff_run'):
            if k in o:
                o[k] = cut_eff(o[k])
        return o

    for e in s['effects']:
        for k in ('max_ph', 'min_ph'):
            if k in e:
                e[k] = cut(e[k])
        if e.get('op_share'):
            e['op_share'] = cut_eff(e['op_share'])
    for bus in s['buses']:
        bus['penalty'] = cut(bus['penalty'])
    for c in s['comps']:
        for _, f in flows_of(c):
            for k in ('rmin', 'rmax', 'profile'):
                if k in f:
                    f[k] = cut(f[k])
            if 'eff' in f:
                f['eff'] = cut_eff(f['eff'])
            f['onoff'] = cut_onoff(f.get('onoff'))
        c['onoff'] = cut_onoff(c.get('onoff'))
        if c['kind'] == 'Transmission' and np.any(np.array(c.get('abs_loss') or 0) != 0):
            for _, f in flows_of(c):  # with absolute losses anywhere, flows may be off everywhere
                f['onoff'] = f['onoff'] if f['onoff'] is not None else {}
        for k in ('eta', 'COP', 'spec', 'eta_th', 'eta_el', 'rel_loss', 'abs_loss', 'eta_c', 'eta_d', 'loss'):
            if k in c:
                c[k] = cut(c[k])
        for k in ('cs_min', 'cs_max'):
            if k in c:
                c[k] = cut(c[k], 1)
        if c.get('factors'):
            c['factors'] = [{l: cut(v) for l, v in r.items()} for r in c['factors']]
        if c.get('segments'):
            c['segments'] = {l: [[cut(p[0]), cut(p[1])] for p in v] for l, v in c['segments'].items()}
    s['n'] = b - a
    s['dt'] = spec['dt'][a:b]
    s['offset_h'] = spec.get('offset_h', 0.0) + float(np.sum(spec['dt'][:a]))
    s['last_explicit'] = True
    if s.get('prev_dt') is None:
        s['prev_dt'] = float(spec['dt'][0])
    return s
