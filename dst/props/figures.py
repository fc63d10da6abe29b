"""F01: figures and tables made from saved results show these results."""
import json
import os
import pathlib
import warnings

import numpy as np

from .. import spec as S
from ..sim import HarnessError, Violation
from ..world import World, differ, history_system, js, plain, random_calc, results_of, snapshot
from .base import Prop
from .files import SUFFIXES, expected_axis, good_answers, load, warm
from .hist import hash_

KINDS = ['op', 'op', 'op', 'op', 'heat', 'heat', 'heat', 'storage', 'net_res', 'net_fs', 'agg', 'table', 'frame']
PAIRS = [('YS', 'D'), ('YS', 'h'), ('MS', 'D'), ('MS', 'h'), ('W', 'D'), ('W', 'h'), ('D', 'h'), ('D', '15min'), ('h', '15min'), ('h', 'min')]
WEEKLY = [i for i, p in enumerate(PAIRS) if p[0] == 'W']
STEP = {'min': 60, '15min': 900, 'h': 3600, 'D': 86400}


def columns(sp, mem, label, fin, fout):
    """values shown for an element: {column: values}"""
    used = {}
    for c in sp['comps']:
        for role, f in S.flows_of(c):
            used.setdefault(f['bus'], []).append((role, c['label'], f['label']))
    want = {}
    buses = {b['label'] for b in sp['buses']}
    for c in sp['comps']:
        for role, f in S.flows_of(c):
            v = np.asarray(mem['Components'][c['label']][f['label']]['flow_rate'], dtype=float)
            full = f'{c["label"]}__{f["label"]}'
            if label == full:
                return {'flow_rate': v}
            if label == c['label']:
                want[full] = v * (fin if role == 'in' else fout)
            elif label in buses and f['bus'] == label:  # what a component takes from a bus leaves the bus
                want[full] = v * (fout if role == 'in' else fin)
    if label in buses:
        br = mem.get('Buses', {}).get(label, {})
        if 'excess_input' in br:
            want['Excess Input'] = np.asarray(br['excess_input'], dtype=float) * fin
        if 'excess_output' in br:
            want['Excess Output'] = np.asarray(br['excess_output'], dtype=float) * fout
    return want


def shown(want, thr=1e-5):
    """-> (columns that are shown, columns so close to the threshold that they may be shown or not)"""
    keep = {k: v for k, v in want.items() if np.any(np.abs(v) > thr)}
    edge = {k for k, v in want.items() if np.any(np.abs(np.abs(v) - thr) < 1e-7)}
    return keep, edge


def to_us(x):
    return np.asarray(x).astype('datetime64[us]')


def same_values(a, b, tol=1.1e-5):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


class F01(Prop):
    runs = {'quick': 300, 'thorough': 6000}
    rule = ('a random system is modelled, answered by a random accepted answer, saved and loaded; then random figures (operation, storage, heat map, network, '
            'aggregation; plotly and matplotlib) are made and written, some of them meeting disk errors, and their contents compared with the results in '
            'memory. Non-trivial: at least one figure with values was checked.')
    measure = 'distinct (figure, contents) histories'

    def generate(self, rng, tier):
        sp = history_system(rng, n=(3, 10), regular=rng.random() < 0.7, storage=0.4)
        if rng.random() < 0.5:  # another time grid, so that heat maps have several periods
            sp['dt'] = [rng.choice([0.25, 0.5, 1.0, 2.0, 6.0, 6.0, 12.0, 24.0])] * sp['n']
            sp['start'] = rng.choice(['2020-01-01T00:00:00', '2019-12-30T00:00:00', '2020-02-29T12:00:00', '2021-12-31T20:00:00', '2020-06-07T00:30:00', '2020-01-04T18:00:00', '2022-05-28T12:00:00'])
        cd = random_calc(rng, sp, 'A', ('full', 'sub', 'agg', 'agg', 'seg'))
        ops = []
        for _ in range(rng.randint(3, 6)):
            o = {'fig': rng.choice(KINDS), 'engine': rng.choice(['plotly', 'plotly', 'matplotlib']), 'mode': rng.choice(['bar', 'line', 'area']),
                 'which': rng.random(), 'what': rng.choice(['comp', 'comp', 'bus', 'bus', 'flow']), 'invert': rng.choice([None, True, False]),
                 'show': rng.random() < 0.3, 'save': rng.random() < 0.5, 'auto': rng.random() < 0.3, 'pair': rng.choice(WEEKLY) if rng.random() < 0.3 else rng.randrange(len(PAIRS))}
            if rng.random() < 0.25:
                o['fault'] = {'at': rng.randrange(3), 'kind': rng.choice(['enospc', 'eio', 'interrupt']), 'frac': rng.random()}
            ops.append(o)
        if cd['kind'] == 'agg':
            ops.insert(0, {'fig': 'agg', 'engine': 'plotly', 'mode': 'line', 'which': 0.0, 'what': 'comp', 'invert': None, 'show': False, 'save': False, 'auto': False, 'pair': 0})
        return js({'spec': sp, 'notation': rng.randrange(1 << 30), 'calcs': [cd], 'answers': good_answers(rng), 'ops': ops})

    def candidates(self, sc):
        for i in range(len(sc['ops'])):
            if len(sc['ops']) > 1:
                c = js(sc)
                del c['ops'][i]
                yield c
        yield from super().candidates(sc)

    # ----------------------------------------------------------------------

    def execute(self, sc, env):
        import matplotlib.pyplot as plt
        warm(env.dir())
        sp, cd = sc['spec'], sc['calcs'][0]
        env.sim_hours += float(sum(sp['dt']))
        w = World(sp, sc['notation'], env.dir(), calcs=sc['calcs'])
        hist, checked = [], 0
        old = os.getcwd()
        os.chdir(w.root)
        try:
            with w.sim.installed(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                w.build()
                if w.do({'do': 'model', 'calc': 'A'})[0][0] != 'ok':
                    return {'skip': 'not modelled', 'key': ''}
                r, _ = w.do({'do': 'solve', 'calc': 'A', 'answers': sc['answers'], 'save': 'res'})
                if r[0] != 'ok':
                    return {'skip': 'not solved', 'key': ''}
                x, _ = load(w.root, 'res', 'A')
                first = plain(x.all_results)
                mem = results_of(w.calc('A'), cd)
                flat = mem['arrays'] if cd['kind'] == 'seg' else mem
                axis = expected_axis(sp, cd)
                for i, o in enumerate(sc['ops']):
                    fn, judge = self.figure(w, sp, cd, flat, axis, x, o, i)
                    if fn is None:
                        hist.append((o['fig'], 'nothing'))
                        continue
                    if o.get('fault'):
                        w.sim.fs.log = []
                        w.sim.fs.plan = [dict(o['fault'])]
                        w.attempt(fn)
                        w.sim.fs.plan = []
                        w.sim.fs.fired = []
                        plt.close('all')
                    box = []
                    before = snapshot(w.root)
                    w.sim.opened_urls.clear()
                    r = w.attempt(lambda fn=fn, box=box: box.append(fn()))
                    if r[0] != 'ok':
                        if not judge.get('may refuse'):
                            raise Violation('refused', f'{judge["what"]} cannot be made: {r[1:]}')
                        hist.append((o['fig'], 'refused'))
                        continue
                    self.files(w, o, judge, before, snapshot(w.root))
                    k = judge['check'](box[0])
                    plt.close('all')
                    checked += k is not None and len(k) > 0
                    hist.append((o["fig"], o["engine"], o["mode"], k is not None and hash_(json.dumps(plain(k), sort_keys=True))))
                    d = differ(plain(x.all_results), first)
                    if d:
                        raise Violation('results', f'the loaded results changed when making {judge["what"]}: {d}')
        finally:
            os.chdir(old)
            plt.close('all')
            env.absorb(w.sim)
        return {'key': hash_(json.dumps(hist)), 'nontrivial': checked > 0, 'history': hist, 'figures': checked}

    def files(self, w, o, judge, before, after):
        """a figure is written to the file asked for, nothing else is touched, and nothing is opened unasked"""
        changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
        path = judge.get('path')
        what = judge['what']
        if path is None:
            bad = changed
        elif path == 'auto':
            bad = {p for p in changed if os.path.dirname(p) != 'res' or p.endswith(SUFFIXES)}
            if not bad and len(changed) > 1:
                bad = changed
        else:
            rel = os.path.relpath(path, w.root)
            bad = changed - {rel}
            if rel not in after:
                raise Violation('missing', f'{what} was made, but {rel} was not written')
        if bad:
            raise Violation('files', f'making {what} changed {sorted(bad)[:3]}')
        if path == 'auto' and not [p for p in after if os.path.dirname(p) == 'res' and not p.endswith(SUFFIXES)]:
            raise Violation('missing', f'{what} was made, but no file was written into the folder of the results')
        if w.sim.opened_urls and not judge.get('show'):
            raise Violation('shown', f'making {what} opens {w.sim.opened_urls[:1]} in the browser, although it should not be shown')

    def figure(self, w, sp, cd, mem, axis, x, o, i):
        """-> (function that makes the figure, {'what', 'check', 'may refuse'})"""
        fn, judge = self.figure_(w, sp, cd, mem, axis, x, o, i)
        if judge and o['fig'] in ('op', 'storage', 'heat'):
            show = o['show'] and (o['engine'] == 'plotly' or o['fig'] == 'storage')
            judge['show'] = show
            if show or o['save']:
                judge['path'] = 'auto' if o['auto'] else self.path(w, o, i)
        elif judge and o['fig'] in ('net_res', 'net_fs'):
            judge['show'] = o['show']
            if o['save'] or o['show']:
                judge['path'] = self.path(w, o, i) if o['save'] else os.path.join(w.root, 'network.html')
        return fn, judge

    def path(self, w, o, i):
        png = o['engine'] == 'matplotlib' and o['fig'] in ('op', 'heat')
        return os.path.join(w.root, f'fig{i}.' + ('png' if png else 'html'))

    def figure_(self, w, sp, cd, mem, axis, x, o, i):
        k = o['fig']
        used = sorted({f['bus'] for c in sp['comps'] for _, f in S.flows_of(c)})

        def pick(seq):
            return seq[min(len(seq) - 1, int(o['which'] * len(seq)))]
        flows = [f'{c["label"]}__{f["label"]}' for c in sp['comps'] for _, f in S.flows_of(c)]
        label = pick({'comp': [c['label'] for c in sp['comps']], 'bus': used, 'flow': flows}[o['what']])
        kw = {} if o['invert'] is None else {'invert': o['invert']}
        inv = o['invert'] is not False
        fin, fout = (1, -1) if inv else (-1, 1)
        out = {'show': False, 'save': o['save']}
        if o['engine'] == 'plotly' or k in ('storage',):
            out['show'] = o['show']
        if not o['auto']:
            out['path'] = self.path(w, o, i)
            if o['which'] < 0.3:
                out['path'] = os.path.relpath(out['path'])
            if o['which'] > 0.6:
                out['path'] = pathlib.Path(out['path'])
        ends = np.asarray(axis)
        if k in ('op', 'frame', 'table'):
            want, edge = shown(columns(sp, mem, label, fin, fout))
            if k in ('frame', 'table'):
                return (lambda: x.to_dataframe(label, input_factor=fin, output_factor=fout)), \
                    {'what': f'the table of {label}', 'check': lambda df: self.frame(label, df, want, edge, ends)}
            mode = o['mode'] if o['engine'] == 'plotly' or o['mode'] != 'area' else 'bar'
            what = f'the {o["engine"]} {mode} figure of {label}'
            chk = self.plotly if o['engine'] == 'plotly' else self.matplotlib
            return (lambda: x.plot_operation(label, mode, engine=o['engine'], **kw, **out)), \
                {'what': what, 'check': lambda fig: chk(what, mode, fig, want, edge, ends)}
        if k == 'storage':
            stor = [c for c in sp['comps'] if c['kind'] == 'Storage']
            if not stor:
                return None, None
            label = pick(stor)['label']
            want, edge = shown(columns(sp, mem, label, fin, fout))
            what = f'the storage figure of {label}'
            cs = np.asarray(mem['Components'][label]['charge_state'], dtype=float)
            return (lambda: x.plot_storage(label, mode=o['mode'], **kw, **out)), \
                {'what': what, 'check': lambda fig: self.plotly(what, o['mode'], fig, want, edge, ends, {'Charge State': cs})}
        if k == 'heat':
            label = pick(flows)
            want = columns(sp, mem, label, fin, fout)
            pair = PAIRS[o['pair']]
            grids = self.heat_grids(pair, want.get('flow_rate'), ends)
            what = f'the {o["engine"]} heat map ({pair[0]} by {pair[1]}) of {label}'
            fn = lambda: x.plot_operation(label, 'heatmap', heatmap_periods=pair[0], heatmap_steps_per_period=pair[1], engine=o['engine'], **kw, **out)  # noqa: E731
            if float((ends[-1] - ends[0]) / np.timedelta64(1, 's')) / STEP[pair[1]] > 2000:
                return None, None
            if grids is None:
                return fn, {'what': what, 'check': lambda fig: None, 'may refuse': True}
            return fn, {'what': what, 'check': lambda fig: self.heat(what, o['engine'], fig, grids)}
        if k in ('net_res', 'net_fs'):
            path = out.get('path', self.path(w, o, i)) if o['save'] else False
            f = x if k == 'net_res' else w.B.fs
            what = 'the network figure of the ' + ('results' if k == 'net_res' else 'flow system')
            return (lambda: f.visualize_network(path, show=o['show'])), {'what': what, 'check': lambda net: self.network(what, net, sp)}
        if k == 'agg':
            if cd['kind'] != 'agg':
                return None, None
            agg = w.calc('A').aggregation
            what = 'the figure of the aggregation'
            return (lambda: agg.plot(show=False)), {'what': what, 'check': lambda fig: self.aggregation(what, fig, agg)}
        raise HarnessError(k)

    # ----------------------------------------------------------------------

    def frame(self, label, df, want, edge, ends):
        have = {c: np.asarray(df[c], dtype=float) for c in df.columns}
        self.match(f'the table of {label}', have, want, edge)
        if have and (len(df) != len(ends) or np.any(to_us(df.index) != ends)):
            raise Violation('times', f'the table of {label} has the times {list(to_us(df.index))[:3]}, expected {list(ends)[:3]}')
        return have

    def match(self, what, have, want, edge):
        """values of every step, the last of them once more at the end"""
        miss, extra = set(want) - set(have) - edge, set(have) - set(want) - edge
        if miss or extra:
            raise Violation('columns', f'{what} ' + (f'does not show {sorted(miss)[:2]}' if miss else f'shows {sorted(extra)[:2]}, which it should not'))
        for c in set(have) & set(want):
            v = np.append(want[c], want[c][-1])
            if not same_values(have[c], v):
                raise Violation('values', f'{what} shows {[round(float(a), 6) for a in np.asarray(have[c])][:6]} for {c}, the results are {list(np.round(v, 6))[:6]}')

    def plotly(self, what, mode, fig, want, edge, ends, extra=None):
        have, seen = {}, {}
        for t in fig.data:
            if t.name in have:
                raise Violation('columns', f'{what} shows {t.name} twice')
            x, y = to_us(t.x), np.asarray(t.y, dtype=float)
            if len(x) != len(ends) or np.any(x != ends):
                raise Violation('times', f'{what} shows {t.name} at {list(x)[:3]}... ({len(x)}), expected {list(ends)[:3]}... ({len(ends)})')
            have[t.name] = y
            seen[t.name] = t
        for n, v in (extra or {}).items():
            y = have.pop(n, None)
            if y is None or not same_values(y, v, 1e-9 + 1e-9 * float(np.max(np.abs(v)))):
                raise Violation('values', f'{what} shows {None if y is None else list(y)[:5]} for {n}, the results are {list(v)[:5]}')
        self.match(what, have, want, edge)
        for n in have:
            t = seen[n]
            if (t.type == 'bar') != (mode == 'bar'):
                raise Violation('kind', f'{what} shows {n} as {t.type}')
            if mode != 'bar' and t.line.shape != 'hv':
                raise Violation('steps', f'{what} does not keep the value of {n} during a step (line shape {t.line.shape})')
        if mode == 'bar' and have and fig.layout.barmode != 'relative':
            raise Violation('stacking', f'the bars of {what} are not stacked ({fig.layout.barmode})')
        if mode == 'area':
            groups = {}
            for n, y in have.items():
                sign = 'pos' if np.all(y >= -1e-5) else 'neg' if np.all(y <= 1e-5) else None
                if np.all(np.abs(y) <= 1.2e-5):
                    continue
                g = seen[n].stackgroup
                if (sign is None) != (g is None):
                    raise Violation('stacking', f'{what} stacks {n} in group {g}, its values are {list(y)[:5]}')
                if g is not None and groups.setdefault(g, sign) != sign:
                    raise Violation('stacking', f'{what} stacks positive and negative values on each other ({n})')
            if len(set(groups.values())) != len(groups):
                raise Violation('stacking', f'{what} does not stack all values of a sign ({sorted(groups)})')
        return have

    def matplotlib(self, what, mode, figax, want, edge, ends):
        import matplotlib.dates as md
        fig, ax = figax
        num = md.date2num(ends)
        have = {}
        if mode == 'line':
            for ln in ax.get_lines():
                t = ax.convert_xunits(np.asarray(ln.get_xdata()))
                if len(t) != len(num) or np.any(np.abs(np.asarray(t, dtype=float) - num) > 1e-6):
                    raise Violation('times', f'{what} shows {ln.get_label()} at other times')
                if ln.get_drawstyle() != 'steps-post':
                    raise Violation('steps', f'{what} does not keep the value of {ln.get_label()} during a step')
                have[ln.get_label()] = np.asarray(ln.get_ydata(), dtype=float)
            self.match(what, have, want, edge)
            return have
        lab = None
        top, low = np.zeros(len(num)), np.zeros(len(num))
        for cont in ax.containers:
            if not cont.get_label().startswith('_') and cont.get_label() != '':
                lab = cont.get_label()
                have[lab] = np.zeros(len(num))
            if len(cont.patches) != len(num):
                raise Violation('times', f'{what} shows {len(cont.patches)} bars for {lab}, expected {len(num)}')
            for j, p in enumerate(cont.patches):
                if abs(p.get_x() + p.get_width() / 2 - num[j]) > 1e-6:
                    raise Violation('times', f'{what} shows a bar of {lab} at {md.num2date(p.get_x() + p.get_width() / 2)}, expected {ends[j]}')
                h = p.get_height()
                have[lab][j] += h
                if abs(h) > 1.2e-5:
                    base = top if h > 0 else low
                    if abs(p.get_y() - base[j]) > 1e-6 * max(1, abs(base[j])):
                        raise Violation('stacking', f'a bar of {lab} in {what} starts at {p.get_y()}, those below end at {base[j]}')
                    base[j] += h
        self.match(what, have, want, edge)
        return have

    def heat_grids(self, pair, v, ends):
        """matrices (steps by periods) the heat map may show: with and without the end of the last step"""
        if v is None:
            return None
        sec = STEP[pair[1]]
        off = ((ends - ends[0].astype('datetime64[D]').astype('datetime64[us]')) / np.timedelta64(1, 's')).astype(float)
        dur = np.diff(off)
        cells = {}
        if np.all(np.abs(off / sec - np.round(off / sec)) < 1e-9):  # every step covers whole cells
            for a, b, val in zip(off[:-1], off[1:], v):
                for j in range(int(round(a / sec)), int(round(b / sec))):
                    cells[j] = float(val)
        elif len(set(np.round(dur, 6))) == 1 and abs(sec / dur[0] - round(sec / dur[0])) < 1e-9 and abs(off[0] / sec - round(off[0] / sec)) < 1e-9 \
                and abs(off[-1] / sec - round(off[-1] / sec)) < 1e-9:  # every cell covers whole steps of the same length
            m = int(round(sec / dur[0]))
            for j in range(len(v) // m):
                cells[int(round(off[0] / sec)) + j] = float(np.mean(v[j * m:(j + 1) * m]))
        else:
            return None
        end = int(round(off[-1] / sec))
        base = ends[0].astype('datetime64[D]')

        def place(j):
            t = (base.astype('datetime64[s]') + np.timedelta64(j * sec, 's')).astype(object)
            iso = (t.year, int(t.strftime('%W')))
            step = {'min': t.minute, '15min': (t.hour, t.minute), 'h': (t.hour,), 'D': ()}[pair[1]]
            per = {'YS': (t.year,), 'MS': (t.year, t.month), 'W': iso, 'D': (t.date(),), 'h': (t.date(), t.hour)}[pair[0]]
            inner = {'YS': (t.timetuple().tm_yday,), 'MS': (t.day,), 'W': (t.isoweekday(),), 'D': (), 'h': ()}[pair[0]]
            if pair[0] == 'h':
                step = (t.minute,)
            return per, inner + step
        res = []
        for with_end in (True, False):
            places = {j: place(j) for j in list(cells) + ([end] if with_end else [])}
            pers = sorted({p for p, _ in places.values()})
            steps = sorted({s for _, s in places.values()})
            m = np.full((len(steps), len(pers)), np.nan)
            free = np.zeros(m.shape, dtype=bool)
            for j, (p, s) in places.items():
                a, b = steps.index(s), pers.index(p)
                if j == end and with_end:
                    free[a, b] = True
                else:
                    m[a, b] = cells[j]
            res.append((m, free))
        return res

    def heat(self, what, engine, fig, grids):
        if engine == 'plotly':
            t = fig.data[0]
            z = np.array([[np.nan if q is None else float(q) for q in row] for row in np.asarray(t.z)], dtype=float)
            xl, yl = list(t.x), list(t.y)
            rev = fig.layout.yaxis.autorange
            if rev != 'reversed':
                raise Violation('order', f'{what} does not show the first step at the top')
        else:
            _, ax = fig
            mesh = ax.collections[0]
            xl, yl = [q.get_text() for q in ax.get_xticklabels()], [q.get_text() for q in ax.get_yticklabels()]
            z = np.ma.filled(np.ma.asarray(mesh.get_array(), dtype=float), np.nan).reshape(len(yl), len(xl))
        if len(set(xl)) != len(xl) or len(set(yl)) != len(yl) or len(xl) != z.shape[1] or len(yl) != z.shape[0]:
            raise Violation('labels', f'{what} of {z.shape} values has the labels {xl[:4]} and {yl[:4]}')
        for m, free in grids:
            if m.shape == z.shape:
                ok = free | (np.isnan(m) & np.isnan(z)) | (np.abs(np.nan_to_num(m) - np.nan_to_num(z)) <= 1.1e-5) & ~np.isnan(m) & ~np.isnan(z)
                if np.all(ok):
                    return z
        m = grids[0][0]
        raise Violation('values', f'{what} shows {z.tolist()[:4]} for {xl[:3]} by {yl[:4]}, the results are {m.tolist()[:4]}')

    def network(self, what, net, sp):
        if net is None:
            raise Violation('network', f'{what} is not returned')
        used = {f['bus'] for c in sp['comps'] for _, f in S.flows_of(c)}
        nodes = {q['id']: (q['label'], q['shape']) for q in net.nodes}
        want = {c['label']: (c['label'], 'box') for c in sp['comps']} | {b: (b, 'circle') for b in used}
        if nodes != want:
            raise Violation('network', f'{what} shows the nodes {nodes}, expected {want}')
        edges = sorted((q['from'], q['to'], q['label']) for q in net.edges)
        ends = sorted(((f['bus'], c['label']) if role == 'in' else (c['label'], f['bus'])) + (f['label'],) for c in sp['comps'] for role, f in S.flows_of(c))
        if edges != ends:
            bad = [q for q in edges if q not in ends] or [q for q in ends if q not in edges]
            raise Violation('network', f'{what} shows wrong edges (from, to, label), for example {bad[:2]}')
        if any(q.get('arrows') != 'to' for q in net.edges):
            raise Violation('network', f'{what} does not show directions')
        return edges

    def aggregation(self, what, fig, agg):
        have = {t.name: np.asarray(t.y, dtype=float) for t in fig.data}
        if len(have) != len(fig.data):
            raise Violation('columns', f'{what} shows a line twice')
        want = {}
        for kind, df in (('Original', agg.original_data), ('Aggregated', agg.aggregated_data)):
            for c in df.columns:
                want[f'{kind} - {c}'] = np.asarray(df[c], dtype=float)
        if set(have) != set(want):
            raise Violation('columns', f'{what} shows {sorted(have)[:4]}, expected {sorted(want)[:4]}')
        for k, v in want.items():
            if not same_values(have[k], v, 1e-9):
                raise Violation('values', f'{what} shows {list(have[k])[:5]} for {k}, the data is {list(v)[:5]}')
        return have


def make(pid):
    return F01(pid)
