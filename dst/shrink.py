"""Greedy minimisation of specs and scenario dictionaries."""
import copy
import time

from . import spec as S

FLOW_OPT = ('eff', 'onoff', 'fh_max', 'fh_min', 'lf_min', 'lf_max', 'rmin', 'rmax', 'prev', 'profile')
COMP_OPT = ('onoff', 'cs_min', 'cs_max', 'initial', 'final_min', 'final_max', 'eta_c', 'eta_d', 'loss', 'rel_loss', 'abs_loss')
FX_OPT = ('max_op', 'min_op', 'max_inv', 'min_inv', 'max_total', 'min_total', 'max_ph', 'min_ph', 'op_share', 'inv_share')


def _uses_effect(node, label):
    if isinstance(node, dict):
        for k, v in node.items():
            if k in ('eff', 'fix', 'spec', 'divest', 'eff_switch', 'eff_run', 'op_share', 'inv_share') and isinstance(v, dict) and label in v:
                return True
            if k == 'segments' and isinstance(v, dict) and isinstance(v.get('eff'), dict) and label in v['eff']:
                return True
            if _uses_effect(v, label):
                return True
    elif isinstance(node, list):
        return any(_uses_effect(v, label) for v in node)
    return False


def spec_candidates(sp):
    """smaller versions of a spec, the most drastic first"""
    for i in range(len(sp['comps'])):
        if len(sp['comps']) > 1:
            c = copy.deepcopy(sp)
            del c['comps'][i]
            used = {f['bus'] for k in c['comps'] for _, f in S.flows_of(k)}
            c['buses'] = [b for b in c['buses'] if b['label'] in used]
            yield c
    n = sp['n']
    for a, b in ((0, n - 1), (1, n)):
        if n > 2:
            try:
                c = S.slice_spec(sp, a, b)
            except Exception:
                continue
            c.pop('offset_h', None)
            yield c
    for i, e in enumerate(sp['effects']):
        if not e.get('standard') and not e.get('objective'):
            rest = {'e': sp['effects'][:i] + sp['effects'][i + 1:], 'c': sp['comps']}
            if not _uses_effect(rest, e['label']):
                c = copy.deepcopy(sp)
                del c['effects'][i]
                yield c
        for k in FX_OPT:
            if k in e:
                c = copy.deepcopy(sp)
                del c['effects'][i][k]
                yield c
    for i, comp in enumerate(sp['comps']):
        for k in COMP_OPT:
            if comp.get(k) is not None:
                c = copy.deepcopy(sp)
                del c['comps'][i][k]
                yield c
        if comp.get('prevent', True) and 'prevent' in comp:
            c = copy.deepcopy(sp)
            c['comps'][i]['prevent'] = False
            yield c
        if comp['kind'] == 'Transmission' and 'in2' in comp['flows']:
            c = copy.deepcopy(sp)
            del c['comps'][i]['flows']['in2'], c['comps'][i]['flows']['out2']
            yield c
        nf = len(S.flows_of(comp))
        for j in range(nf):
            f = S.flows_of(comp)[j][1]
            for k in FLOW_OPT:
                if f.get(k) is not None:
                    c = copy.deepcopy(sp)
                    del S.flows_of(c['comps'][i])[j][1][k]
                    yield c
            if isinstance(f.get('size'), dict):
                c = copy.deepcopy(sp)
                S.flows_of(c['comps'][i])[j][1]['size'] = f['size'].get('fixed') or f['size'].get('max') or 10
                yield c
                for k in ('fix', 'spec', 'divest', 'segments', 'min'):
                    if k in f['size']:
                        c = copy.deepcopy(sp)
                        del S.flows_of(c['comps'][i])[j][1]['size'][k]
                        yield c
        cap = comp.get('capacity')
        if isinstance(cap, dict):
            c = copy.deepcopy(sp)
            c['comps'][i]['capacity'] = cap.get('fixed') or cap.get('max') or 10
            yield c
            for k in ('fix', 'spec', 'divest', 'segments', 'min'):
                if k in cap:
                    c = copy.deepcopy(sp)
                    del c['comps'][i]['capacity'][k]
                    yield c
        for where in [('comp', None)] + [('flow', j) for j in range(nf)]:
            o = comp if where[0] == 'comp' else S.flows_of(comp)[where[1]][1]
            for k in list(o.get('onoff') or {}):
                c = copy.deepcopy(sp)
                o2 = c['comps'][i] if where[0] == 'comp' else S.flows_of(c['comps'][i])[where[1]][1]
                del o2['onoff'][k]
                yield c
    for i, b in enumerate(sp['buses']):
        if isinstance(b.get('penalty'), list):
            c = copy.deepcopy(sp)
            c['buses'][i]['penalty'] = b['penalty'][0]
            yield c
    if len(set(sp['dt'])) > 1 or sp['dt'][0] != 1.0:
        c = copy.deepcopy(sp)
        c['dt'] = [1.0] * n
        yield c
    for path in list(_lists(sp, n)):
        c = copy.deepcopy(sp)
        o = c
        for p in path[:-1]:
            o = o[p]
        if path[-1] != 'dt' and isinstance(o[path[-1]], list):
            o[path[-1]] = o[path[-1]][0]
            yield c
    for k in ('last_as', 'last_explicit', 'prev_dt', 'offset_h'):
        if sp.get(k) is not None:
            c = copy.deepcopy(sp)
            del c[k]
            yield c
    for k, v in (('unit', 's'), ('start', '2020-01-01T00:00:00')):
        if sp.get(k) != v:
            c = copy.deepcopy(sp)
            c[k] = v
            yield c


def _lists(node, n, path=()):
    if isinstance(node, dict):
        for k, v in node.items():
            if k == 'dt' or k == 'prev':
                continue
            if isinstance(v, list) and len(v) == n and all(isinstance(x, (int, float)) for x in v) and path and path[-1] != 'size':
                yield path + (k,)
            else:
                yield from _lists(v, n, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                yield from _lists(v, n, path + (i,))


def shrink(sc, fails, candidates, budget=40.0, max_tries=400):
    """fails(scenario) -> bool; candidates(scenario) yields smaller ones"""
    t0, tries = time.monotonic(), 0
    progress = True
    while progress and time.monotonic() - t0 < budget and tries < max_tries:
        progress = False
        for c in candidates(sc):
            tries += 1
            if time.monotonic() - t0 > budget or tries > max_tries:
                break
            try:
                bad = fails(c)
            except Exception:
                bad = False
            if bad:
                sc = c
                progress = True
                break
    return sc, tries
