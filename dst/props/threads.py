"""T01: calculations in parallel threads under a seeded scheduler."""
import contextlib
import hashlib
import json
import os
import sys
import threading

from .. import sim
from ..sim import HarnessError, Violation
from ..world import World, differ, history_system, js, plain, random_answer, random_calc, read_normalised
from .base import Prop
from .hist import hash_


class Local:
    """attribute that every thread has for itself"""

    def __init__(self, name, make):
        self.name, self.make = name, make

    def __get__(self, obj, cls):
        d = obj._threads.setdefault(threading.get_ident(), {})
        if self.name not in d:
            d[self.name] = self.make(obj)
        return d[self.name]

    def __set__(self, obj, value):
        obj._threads.setdefault(threading.get_ident(), {})[self.name] = value


class MultiFs(sim.FsSim):
    log, plan, fired, opened, _frac = Local('log', lambda o: []), Local('plan', lambda o: []), Local('fired', lambda o: []), Local('opened', lambda o: []), Local('frac', lambda o: 0.5)

    def __init__(self, s, root):
        self._threads = {}
        super().__init__(s, root)


class MultiSim(sim.Sim):
    solver = Local('solver', lambda o: sim.SimSolverCore(o))

    def __init__(self, root):
        self._threads = {}
        super().__init__(root=root)
        self.fs = MultiFs(self, root)
        self.capture.lock = None  # a thread may be parked while it formats its message
        self.capture.createLock = lambda: None


class Deadlock(BaseException):
    pass


class Scheduler:
    """Exactly one thread runs; the list says after how many steps which one continues."""

    def __init__(self, n, schedule, count='lines'):
        self.count = count  # what counts as a step, besides file operations and solver calls: lines, calls, nothing
        self.n, self.schedule = n, list(schedule)
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.alive, self.blocked = set(range(n)), set()
        self.current, self.steps, self.switches = None, 0, 0
        self.done = threading.Event()
        self.digest = hashlib.sha256()
        self.ids, self.stuck = {}, False
        self.budget, self.to = self.next_entry()

    def next_entry(self):
        return self.schedule.pop(0) if self.schedule else (None, None)

    def pick(self, wanted=None):
        ready = sorted(self.alive - self.blocked)
        if not ready:
            return None
        return wanted if wanted in ready else ready[(wanted or 0) % len(ready)]

    def hand_over(self, nxt, wait):
        me = self.current
        if nxt is None:
            self.stuck = True
            self.done.set()
            if not wait:
                return
            self.turn[me].acquire()  # for ever
        self.switches += 1
        self.current = nxt
        self.turn[nxt].release()
        if wait:
            self.turn[me].acquire()

    def switch(self, where):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        self.steps += 1
        if self.budget is None:
            return
        self.budget -= 1
        if self.budget > 0:
            return
        wanted = self.to
        self.budget, self.to = self.next_entry()
        nxt = self.pick(wanted)
        self.digest.update(f'{me}>{nxt}@{where};'.encode())
        if nxt != me:
            self.hand_over(nxt, True)

    def block(self):
        """the running thread waits for a lock"""
        me = self.ids[threading.get_ident()]
        self.blocked.add(me)
        self.hand_over(self.pick(), True)

    def unblock(self):
        self.blocked.clear()

    def run(self, fns, limit):
        from ..run import REPO
        root = REPO + os.sep + 'flixOpt' + os.sep
        errors = []

        def local(frame, event, arg):
            if event == 'line':
                self.switch(os.path.basename(frame.f_code.co_filename) + ':' + frame.f_code.co_name)
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(root):
                return None
            if self.count == 'lines':
                return local
            self.switch(os.path.basename(frame.f_code.co_filename) + ':' + frame.f_code.co_name)

        def body(i, fn):
            self.turn[i].acquire()
            self.ids[threading.get_ident()] = i
            if self.count != 'io':
                sys.settrace(tracer)
            try:
                fn()
            except BaseException as e:
                errors.append(e)
            finally:
                sys.settrace(None)
                self.alive.discard(i)
                self.blocked.clear()
                if self.alive:
                    self.hand_over(self.pick(), False)
                else:
                    self.done.set()
        ts = [threading.Thread(target=body, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
        for t in ts:
            t.start()
        self.current = 0
        self.turn[0].release()
        if not self.done.wait(limit):
            raise HarnessError('threads do not finish')
        if self.stuck:
            raise Violation('deadlock', f'threads {sorted(self.blocked)} wait for each other')
        for t in ts:
            t.join(5)
        if errors:
            raise errors[0]


class SimLock:
    """stand-in for the locks of flixOpt: waiting is a matter of the scheduler"""

    def __init__(self, s, reentrant):
        self.s, self.reentrant, self.owner, self.depth = s, reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if self.s.scheduler is None:
                raise HarnessError('lock never released')
            self.s.scheduler.block()
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner, self.depth = None, 0
            if self.s.scheduler is not None:
                self.s.scheduler.unblock()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


@contextlib.contextmanager
def own_locks(s):
    kinds = {type(threading.Lock()): False, type(threading.RLock()): True}
    saved = []
    for mod in sim._flixopt_modules():
        for holder in [mod] + [c for c in vars(mod).values() if isinstance(c, type) and c.__module__ == mod.__name__]:
            for name, value in list(vars(holder).items()):
                if type(value) in kinds:
                    saved.append((holder, name, value))
                    setattr(holder, name, SimLock(s, kinds[type(value)]))
    try:
        yield
    finally:
        for holder, name, value in saved:
            setattr(holder, name, value)


class T01(Prop):
    runs = {'quick': 120, 'thorough': 4000}
    rule = ('two or three threads each build, model, solve, save, load and export their own flow system; a listed schedule decides at every line of flixOpt, file operation and solver call '
            'which thread continues. Outcomes, problems, results and files of every thread are compared with those of the thread alone. '
            'Non-trivial: at least ten switches happened and every thread reached the solver.')
    measure = 'distinct interleavings (thread and place of every switch)'
    real = Prop.real + ['threads (parked and resumed by the scheduler)']
    stub = Prop.stub + ['locks of flixOpt (waiting is scheduled)']

    def generate(self, rng, tier):
        k = rng.choice([2, 2, 2, 3])
        share = rng.random() < 0.6
        same = rng.random() < 0.4
        threads = []
        sp = None
        for i in range(k):
            if sp is None or not same:
                sp = history_system(rng, n=(3, 5), comps=(1, 3), regular=rng.random() < 0.6)
            cd = random_calc(rng, sp, 'A')
            cd['title'] = f'calc{i}' if share else 'calc'
            folder = 'res' if share else f't{i}/res'
            ops = []
            for _ in range(rng.choice([1, 1, 2])):
                ops.append({'do': 'model', 'calc': 'A'})
                op = {'do': 'solve', 'calc': 'A', 'answers': [random_answer(rng, 0.1) for _ in range(4)], 'solver': rng.choice(['highs', 'gurobi', 'cbc'])}
                if rng.random() < 0.8:
                    op['save'] = folder
                    if rng.random() < 0.1:
                        op['fs'] = [{'match': [rng.choice(['open', 'write', 'close', 'replace']), cd['title'] + '_(results|data|infos)', rng.randint(1, 3)], 'kind': rng.choice(['enospc', 'eio'])}]
                ops.append(op)
                if rng.random() < 0.5:
                    ops.append({'do': rng.choice(['results', 'main', 'infos']), 'calc': 'A'})
                if 'save' in op and rng.random() < 0.4:
                    ops.append({'do': 'load', 'calc': 'A', 'save': folder, 'name': cd['title']})
                if rng.random() < 0.2:
                    ops.append({'do': 'export', 'path': f'x{i}.json'})
            threads.append({'spec': sp, 'calcs': [cd], 'ops': ops, 'notation': rng.randrange(1 << 30)})
        count = rng.choice(['lines', 'calls', 'io', 'io'])
        mean = 10 ** rng.uniform(0.5, 3.3) if count == 'lines' else 10 ** rng.uniform(0.3, 2.5) if count == 'calls' else rng.choice([1, 1.5, 3, 8])
        cur, sched = 0, []
        for _ in range(300):
            cur = (cur + rng.randrange(1, k)) % k
            sched.append([max(1, int(rng.expovariate(1 / mean))), cur])
        return js({'threads': threads, 'schedule': sched, 'count': count})

    def candidates(self, sc):
        if len(sc['threads']) > 2:
            for i in range(len(sc['threads'])):
                c = js(sc)
                del c['threads'][i]
                yield c
        s = sc['schedule']
        for k in (2, 4, 8):
            if len(s) >= k:
                for i in range(k):
                    c = js(sc)
                    c['schedule'] = s[:len(s) * i // k] + s[len(s) * (i + 1) // k:]
                    yield c
        for i, t in enumerate(sc['threads']):
            for j in range(len(t['ops'])):
                c = js(sc)
                del c['threads'][i]['ops'][j]
                yield c

    # ------------------------------------------------------------------
    def script(self, s, root, t, out):
        w = World(t['spec'], t['notation'], root, calcs=t['calcs'])
        w.sim = s
        r = w.attempt(w.build)
        out.append(('build', r[0]) if r[0] == 'ok' else ('build',) + r)
        if r[0] != 'ok':
            return
        n0 = len(s.solver.calls)
        for op in t['ops']:
            r, calls = w.do(op)
            value = None
            if r[0] == 'ok' and op['do'] in ('results', 'main'):
                value = plain(r[1])
            if r[0] == 'ok' and op['do'] == 'load':
                value = [plain(r[1].all_results), plain(r[1].all_data)]
            out.append((op['do'],) + tuple(x if not isinstance(x, str) else x.replace(root, '<root>') for x in (r[:1] if r[0] == 'ok' else r)) + ([c['fp'] for c in calls], value))
        if 'A' in w.calcs:
            r, _ = w.do({'do': 'results', 'calc': 'A'})
            out.append(('final', r[0], plain(r[1]) if r[0] == 'ok' else r[1]))
        out.append(len(s.solver.calls) - n0)

    def tree(self, root):
        out = {}
        for d, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                out[os.path.relpath(p, root)] = read_normalised(p).replace(root, '<root>')
        return out

    def execute(self, sc, env):
        alone, files = [], {}
        for t in sc['threads']:
            env.sim_hours += float(sum(t['spec']['dt']))
            root = env.dir()
            s = MultiSim(root)
            out = []
            with s.installed(), own_locks(s):
                self.script(s, root, t, out)
            for k, v in self.tree(root).items():
                files[k] = v
            alone.append(out)
            env.absorb(s)
        root = env.dir()
        s = MultiSim(root)
        outs = [[] for _ in sc['threads']]
        with s.installed(), own_locks(s):
            sched = s.scheduler = Scheduler(len(sc['threads']), sc['schedule'], sc['count'])
            sched.run([lambda t=t, o=o: self.script(s, root, t, o) for t, o in zip(sc['threads'], outs)], 120)
            s.scheduler = None
        env.absorb(s)
        env.counts['fault:thread switch'] += sched.switches
        for i, (a, b) in enumerate(zip(alone, outs)):
            for x, y in zip(a, b):
                if x == y:
                    continue
                if isinstance(x, tuple) and x[:2] == y[:2]:
                    d = differ(plain(list(x)), plain(list(y)), 1e-9)
                    if d:
                        raise Violation('thread', f'thread {i}, {x[0]}: differs from the thread alone: {d}')
                    continue
                raise Violation('thread', f'thread {i} ends with {str(y)[:300]}, alone with {str(x)[:200]}')
            if len(a) != len(b):
                raise Violation('thread', f'thread {i} ends after {len(b)} operations, alone after {len(a)}')
        got = self.tree(root)
        if set(got) != set(files):
            raise Violation('files', f'the threads write {sorted(set(got) - set(files))} in addition and lack {sorted(set(files) - set(got))}')
        for k in sorted(files):
            if got[k] != files[k]:
                raise Violation('files', f'{k} differs from the one the thread writes alone')
        reached = all(o and isinstance(o[-1], int) and o[-1] > 0 for o in outs)
        return {'key': sched.digest.hexdigest()[:16], 'nontrivial': reached and sched.switches >= 10, 'switches': sched.switches, 'steps': sched.steps}


def make(pid):
    return T01(pid)
