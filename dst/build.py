"""Turn a spec into real flixOpt objects through the public constructors."""
import numpy as np

from . import spec as S


class Notation:
    """Chooses, from a seed, how each equal value is written down."""

    def __init__(self, rng=None, level=2, share=None):
        self.rng, self.level, self.share = rng, level, share
        self.objects = []  # (object, frozen copy) of every data object handed over
        self.pool, self.shared = {}, 0

    def tv(self, x, n, allow_tsd=True):
        import flixOpt as fx
        if x is None:
            return None
        if self.rng is None or self.level == 0:
            v = np.array(x, dtype=float) if isinstance(x, list) else x
        elif isinstance(x, list):
            v = np.array(x, dtype=float)
            if allow_tsd and self.rng.random() < 0.3:
                v = fx.TimeSeriesData(v)
        else:
            c = self.rng.randrange(6 if allow_tsd else 5)
            if c <= 1:
                v = x
            elif c == 2:
                v = np.float64(x)
            elif c == 3:
                v = np.full(n, float(x))
            elif c == 4:
                v = int(x) if float(x).is_integer() else x
            else:
                v = fx.TimeSeriesData(np.full(n, float(x)))
        return self.remember(v)

    def remember(self, v):
        """keeps a frozen copy of every data object before flixOpt gets it; may replace it by an equal object that is used elsewhere"""
        if isinstance(v, (np.ndarray, dict, list)) or type(v).__name__ in PARAMETERS:
            f = freeze(v)
            if self.share is not None and not isinstance(v, list):
                if repr(f) in self.pool and self.share.random() < 0.8:
                    self.shared += 1
                    return self.pool[repr(f)]
                self.pool.setdefault(repr(f), v)
            self.objects.append((v, f))
        return v

    def changed(self, standard=None):
        """description of the first data object that is not what it was, or None"""
        for v, f in self.objects:
            g = freeze(v)
            if g != f and resolve(g, standard) != resolve(f, standard):
                return f'{type(v).__name__} was {str(f)[:160]}, is {str(g)[:160]}'
        return None

    def coin(self, p=0.5):
        return self.rng is not None and self.rng.random() < p


PARAMETERS = {
    'TimeSeriesData': ('data', 'agg_group', 'agg_weight'),
    'OnOffParameters': ('effects_per_switch_on', 'effects_per_running_hour', 'on_hours_total_min', 'on_hours_total_max', 'consecutive_on_hours_min',
                        'consecutive_on_hours_max', 'consecutive_off_hours_min', 'consecutive_off_hours_max', 'switch_on_total_max', 'force_switch_on'),
    'InvestParameters': ('fixed_size', 'minimum_size', 'maximum_size', 'optional', 'fix_effects', 'specific_effects', 'divest_effects',
                         'effects_in_segments'),
}
EFFECT_VALUES = ('effects_per_switch_on', 'effects_per_running_hour', 'fix_effects', 'specific_effects', 'divest_effects')


def freeze(v, inside=False):
    """plain copy of a data object.  Attributes of parameter objects may be replaced by equal ones (inside)."""
    t = type(v).__name__
    if t in PARAMETERS:
        if inside and t == 'TimeSeriesData':
            return freeze(v.data, True)
        return (t, {a: ((a,) if a in EFFECT_VALUES else ()) + (freeze(getattr(v, a), t != 'TimeSeriesData'),) for a in PARAMETERS[t] if hasattr(v, a)})
    if t == 'TimeSeries':
        return freeze(v.data, True)
    if isinstance(v, np.ndarray):
        if inside and v.size and v.ndim == 1 and np.all(v == v[0]):
            return freeze(v[0], True)
        return ('array', str(v.dtype), v.tolist())
    if isinstance(v, dict):
        return ('dict', [(k if k is None or isinstance(k, str) else type(k).__name__ + ' ' + getattr(k, 'label', '') + ('' if type(k).__name__ == 'Effect' else f' {id(k)}'),
                          freeze(x, inside)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return ('list', [freeze(x, inside) for x in v])
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, (int, float, np.number)):
        return float(v)
    return f'{type(v).__name__} {id(v)}'


def resolve(f, standard):
    """effect values in parameter objects: equal notations become one"""
    if isinstance(f, tuple) and len(f) == 2 and f[0] in EFFECT_VALUES:
        x = f[1]
        if x is None or x == ('dict', []):
            return None
        if not (isinstance(x, tuple) and x[0] == 'dict'):
            x = ('dict', [(None, x)])
        return sorted((f'Effect {standard}' if k is None else k, repr(y)) for k, y in x[1])
    if isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], dict):
        return f[0], {k: resolve(v, standard) for k, v in f[1].items()}
    return f


class Built:
    def __init__(self):
        self.effects, self.buses, self.comps, self.flows = {}, {}, {}, {}
        self.fs = None
        self.notation = None


def time_axis(spec):
    unit = spec.get('unit', 's')
    t0 = np.datetime64(spec.get('start', '2020-01-01T00:00:00'), 'us')
    hours = np.concatenate([[0.0], np.cumsum(spec['dt'])[:-1]]) + spec.get('offset_h', 0.0)
    t = t0 + np.round(hours * 3600e6).astype('timedelta64[us]')
    while np.any(t.astype(f'datetime64[{unit}]').astype(t.dtype) != t):  # the unit is too coarse for these times
        unit = {'D': 'h', 'h': 'm', 'm': 's', 's': 'ms', 'ms': 'us'}[unit]
    return t.astype(f'datetime64[{unit}]')


def expected_axis(spec):
    """time stamps of all steps plus the end, in us"""
    t0 = np.datetime64(spec.get('start', '2020-01-01T00:00:00'), 'us')
    hours = np.concatenate([[0.0], np.cumsum(spec['dt'])]) + spec.get('offset_h', 0.0)
    return t0 + np.round(hours * 3600e6).astype('timedelta64[us]')


def make_flow_system(spec, N=None):
    import flixOpt as fx
    N = N or Notation()
    axis = N.remember(time_axis(spec))
    kw = {}
    dt = spec['dt']
    if spec.get('last_explicit') or abs(dt[-1] - dt[-2]) > 1e-12:
        h = dt[-1]
        if spec.get('last_as') == 'timedelta':
            kw['last_time_step_hours'] = np.timedelta64(int(round(h * 3600e6)), 'us')
        else:
            kw['last_time_step_hours'] = int(h) if float(h).is_integer() else h
    p = spec.get('prev_dt')
    if p is not None:
        kw['previous_dt_in_hours'] = N.remember(np.array(p, dtype=float)) if isinstance(p, list) else p
    return fx.FlowSystem(axis, **kw)


def build(spec, nrng=None, order_rng=None, split_rng=None, level=2, add=True, share=None):
    """nrng: notation choices; order_rng: insertion order of effects/components;
    split_rng: how the additions are grouped into calls."""
    import flixOpt as fx
    n = spec['n']
    N = Notation(nrng, level, share)
    B = Built()
    B.notation = N
    B.spec = spec
    tvv = N.tv

    # effects: shares need target objects -> create in dependency order
    pending = list(spec['effects'])
    while pending:
        progressed = False
        for e in list(pending):
            targets = set((e.get('op_share') or {})) | set((e.get('inv_share') or {}))
            if targets <= set(B.effects):
                kw = {}
                for key, arg in (('max_op', 'maximum_operation'), ('min_op', 'minimum_operation'),
                                 ('max_inv', 'maximum_invest'), ('min_inv', 'minimum_invest'),
                                 ('max_total', 'maximum_total'), ('min_total', 'minimum_total')):
                    if e.get(key) is not None:
                        kw[arg] = e[key]
                for key, arg in (('max_ph', 'maximum_operation_per_hour'), ('min_ph', 'minimum_operation_per_hour')):
                    if e.get(key) is not None:
                        kw[arg] = tvv(e[key], n)
                if e.get('op_share'):
                    d = {B.effects[t]: tvv(v, n) for t, v in e['op_share'].items()}
                    d = N.remember(d)
                    kw['specific_share_to_other_effects_operation'] = d
                if e.get('inv_share'):
                    d = {B.effects[t]: v for t, v in e['inv_share'].items()}
                    d = N.remember(d)
                    kw['specific_share_to_other_effects_invest'] = d
                B.effects[e['label']] = fx.Effect(e['label'], e.get('unit', 'EUR'), e.get('desc', 'effect'),
                                                  is_standard=bool(e.get('standard')),
                                                  is_objective=bool(e.get('objective')), **kw)
                pending.remove(e)
                progressed = True
        if not progressed:
            raise ValueError('cyclic effect shares in spec')

    for b in spec['buses']:
        pen = b.get('penalty')
        B.buses[b['label']] = fx.Bus(b['label'], excess_penalty_per_flow_hour=tvv(pen, n))

    def eff(values, tdep=True):
        """effect values in one of the equal notations"""
        if values is None:
            return None
        norm = S.norm_effects(spec, values)
        conv = (lambda v: tvv(v, n)) if tdep else (lambda v: v)
        std = S.standard_effect(spec)
        if set(norm) == {std} and std is not None:
            c = N.rng.randrange(3) if N.rng is not None else (0 if not isinstance(values, dict) else 2)
            if c == 0:
                return conv(norm[std])
            if c == 1:
                return N.remember({None: conv(norm[std])})
        d = {}
        for k, v in norm.items():
            key = B.effects[k]
            if k == std and N.coin(0.3):
                key = None
            d[key] = conv(v)
        return N.remember(d)

    def onoff(o):
        if o is None:
            return None
        kw = {}
        for key, arg in (('hours_min', 'on_hours_total_min'), ('hours_max', 'on_hours_total_max'),
                         ('starts_max', 'switch_on_total_max')):
            if o.get(key) is not None:
                kw[arg] = o[key]
        for key, arg in (('on_min', 'consecutive_on_hours_min'), ('on_max', 'consecutive_on_hours_max'),
                         ('off_min', 'consecutive_off_hours_min'), ('off_max', 'consecutive_off_hours_max')):
            if o.get(key) is not None:
                kw[arg] = tvv(o[key], n)
        if o.get('eff_switch') is not None:
            kw['effects_per_switch_on'] = eff(o['eff_switch'])
        if o.get('eff_run') is not None:
            kw['effects_per_running_hour'] = eff(o['eff_run'])
        if o.get('force_switch'):
            kw['force_switch_on'] = True
        return N.remember(fx.OnOffParameters(**kw))

    def invest(i):
        kw = {'optional': bool(i.get('optional', True))}
        if i.get('fixed') is not None:
            kw['fixed_size'] = i['fixed']
        if i.get('min') is not None:
            kw['minimum_size'] = i['min']
        if i.get('max') is not None:
            kw['maximum_size'] = i['max']
        for key, arg in (('fix', 'fix_effects'), ('spec', 'specific_effects'), ('divest', 'divest_effects')):
            if i.get(key) is not None:
                kw[arg] = eff(i[key], tdep=False)
        if i.get('segments'):
            kw['effects_in_segments'] = (
                [tuple(x) for x in i['segments']['size']],
                {B.effects[l]: [tuple(x) for x in pts] for l, pts in i['segments']['eff'].items()},
            )
        return N.remember(fx.InvestParameters(**kw))

    def size(x):
        if isinstance(x, dict):
            return invest(x)
        return x

    def flow(comp_label, f):
        kw = {}
        if f.get('size') is not None:
            kw['size'] = size(f['size'])
        for key, arg in (('rmin', 'relative_minimum'), ('rmax', 'relative_maximum'), ('profile', 'fixed_relative_profile')):
            if f.get(key) is not None:
                kw[arg] = tvv(f[key], n)
        if f.get('eff') is not None:
            kw['effects_per_flow_hour'] = eff(f['eff'])
        if f.get('onoff') is not None:
            kw['on_off_parameters'] = onoff(f['onoff'])
        for key, arg in (('fh_max', 'flow_hours_total_max'), ('fh_min', 'flow_hours_total_min'),
                         ('lf_min', 'load_factor_min'), ('lf_max', 'load_factor_max')):
            if f.get(key) is not None:
                kw[arg] = f[key]
        if f.get('prev') is not None:
            kw['previous_flow_rate'] = N.remember(np.array(f['prev'], dtype=float)) if isinstance(f['prev'], list) else f['prev']
        fl = fx.Flow(f['label'], B.buses[f['bus']], **kw)
        B.flows[(comp_label, f['label'])] = fl
        return fl

    for c in spec['comps']:
        lab, k, f = c['label'], c['kind'], c['flows']
        kw = {}
        if c.get('onoff') is not None:
            kw['on_off_parameters'] = onoff(c['onoff'])
        F = lambda key: flow(lab, f[key])
        if k == 'Source':
            o = fx.Source(lab, F('out'))
        elif k == 'Sink':
            o = fx.Sink(lab, F('in'))
        elif k == 'SourceAndSink':
            o = fx.SourceAndSink(lab, source=F('out'), sink=F('in'), prevent_simultaneous_flows=c.get('prevent', True))
        elif k == 'Converter':
            fl = {x['label']: flow(lab, x) for x in f['ins'] + f['outs']}
            if c.get('segments'):
                kw['segmented_conversion_factors'] = {
                    fl[l]: [(tvv(p[0], n, False), tvv(p[1], n, False)) for p in pts] for l, pts in c['segments'].items()}
            else:
                kw['conversion_factors'] = [{fl[l]: tvv(v, n) for l, v in r.items()} for r in c['factors']]
                for d in kw['conversion_factors']:
                    N.remember(d)
            ins, outs = [fl[x['label']] for x in f['ins']], [fl[x['label']] for x in f['outs']]
            N.remember(ins)
            N.remember(outs)
            o = fx.LinearConverter(lab, inputs=ins, outputs=outs, **kw)
        elif k == 'Boiler':
            o = fx.linear_converters.Boiler(lab, tvv(c['eta'], n), Q_fu=F('fuel'), Q_th=F('th'), **kw)
        elif k == 'Power2Heat':
            o = fx.linear_converters.Power2Heat(lab, tvv(c['eta'], n), P_el=F('el'), Q_th=F('th'), **kw)
        elif k == 'HeatPump':
            o = fx.linear_converters.HeatPump(lab, tvv(c['COP'], n), P_el=F('el'), Q_th=F('th'), **kw)
        elif k == 'CoolingTower':
            o = fx.linear_converters.CoolingTower(lab, tvv(c['spec'], n), P_el=F('el'), Q_th=F('th'), **kw)
        elif k == 'CHP':
            o = fx.linear_converters.CHP(lab, tvv(c['eta_th'], n), tvv(c['eta_el'], n), Q_fu=F('fuel'), P_el=F('el'), Q_th=F('th'), **kw)
        elif k == 'HeatPumpWithSource':
            o = fx.linear_converters.HeatPumpWithSource(lab, tvv(c['COP'], n), P_el=F('el'), Q_ab=F('ab'), Q_th=F('th'), **kw)
        elif k == 'Storage':
            o = fx.Storage(
                lab, charging=F('charge'), discharging=F('discharge'),
                capacity_in_flow_hours=size(c['capacity']),
                relative_minimum_charge_state=tvv(c.get('cs_min', 0), n, False) if isinstance(c.get('cs_min', 0), list) else c.get('cs_min', 0),
                relative_maximum_charge_state=tvv(c.get('cs_max', 1), n, False) if isinstance(c.get('cs_max', 1), list) else c.get('cs_max', 1),
                initial_charge_state=c.get('initial', 0),
                minimal_final_charge_state=c.get('final_min'),
                maximal_final_charge_state=c.get('final_max'),
                eta_charge=tvv(c.get('eta_c', 1), n), eta_discharge=tvv(c.get('eta_d', 1), n),
                relative_loss_per_hour=tvv(c.get('loss', 0), n),
                prevent_simultaneous_charge_and_discharge=c.get('prevent', True))
        elif k == 'Transmission':
            o = fx.Transmission(
                lab, in1=F('in1'), out1=F('out1'),
                in2=F('in2') if 'in2' in f else None, out2=F('out2') if 'in2' in f else None,
                relative_losses=tvv(c.get('rel_loss'), n), absolute_losses=tvv(c.get('abs_loss'), n),
                prevent_simultaneous_flows_in_both_directions=c.get('prevent', True), **kw)
        else:
            raise ValueError(k)
        B.comps[lab] = o

    B.fs = make_flow_system(spec, N)
    if add:
        items = [('e', l) for l in B.effects] + [('c', l) for l in B.comps]
        if order_rng is not None:
            order_rng.shuffle(items)
        B.items = items
        add_items(B, items, split_rng)
    return B


def add_items(B, items, split_rng=None):
    """Add elements one by one, in groups, or through either method."""
    i = 0
    while i < len(items):
        j = i + 1
        kind = items[i][0]
        mode = 0 if split_rng is None else split_rng.randrange(3)
        if split_rng is not None:
            width = split_rng.randrange(1, 5)
            while j < len(items) and j - i < width and (mode == 2 or items[j][0] == kind):
                j += 1
        objs = [B.effects[l] if t == 'e' else B.comps[l] for t, l in items[i:j]]
        if mode == 2:
            B.fs.add_elements(*objs)
        elif kind == 'e':
            B.fs.add_effects(*objs)
        else:
            B.fs.add_components(*objs)
        i = j
