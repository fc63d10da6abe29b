"""Check runner:  run.py PROPERTY            (VERIF_SEED, VERIF_TIER)
                  run.py PROPERTY --replay FILE
                  run.py PROPERTY --index K    one run, verbose
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REAL_TIME = time.monotonic
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
RUN_LIMIT_S = 150


class RunTimeout(BaseException):
    pass


def setup_process():
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(k, '1')
    sys.dont_write_bytecode = True
    sys.path[:0] = [REPO, VERIF]
    warnings.simplefilter('ignore')


def load(pid):
    from dst import props
    return importlib.import_module('dst.props.' + props.MODULES[pid]).make(pid)


class Env:
    """What a run may use: scratch directories that vanish afterwards."""

    def __init__(self, base):
        self.base, self.k = base, 0
        self.counts = collections.Counter()
        self.sim_hours = 0.0
        self.sim_clock_s = 0.0

    def dir(self):
        self.k += 1
        p = os.path.join(self.base, f'd{self.k}')
        os.makedirs(p)
        return p

    def clear(self):
        for n in os.listdir(self.base):
            shutil.rmtree(os.path.join(self.base, n), ignore_errors=True)

    def absorb(self, sim):
        self.counts.update(sim.counts)
        self.sim_clock_s += sim.clock.span


class Reach:
    """lines of flixOpt that were executed (each line reports once, then costs nothing)"""

    def __init__(self):
        self.seen, self.root = set(), os.path.join(REPO, 'flixOpt') + os.sep
        m = sys.monitoring
        try:
            m.use_tool_id(m.COVERAGE_ID, 'dst-reach')
        except ValueError:
            return
        m.register_callback(m.COVERAGE_ID, m.events.LINE, self.line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)

    def line(self, code, n):
        if code.co_filename.startswith(self.root):
            self.seen.add((code.co_filename[len(self.root):], n))
        return sys.monitoring.DISABLE

    @staticmethod
    def possible():
        """lines of flixOpt inside functions that could be executed"""
        res, root = {}, os.path.join(REPO, 'flixOpt')
        for name in sorted(os.listdir(root)):
            if name.endswith('.py'):
                todo = [compile(open(os.path.join(root, name)).read(), name, 'exec')]
                lines = set()
                while todo:
                    c = todo.pop()
                    todo += [x for x in c.co_consts if hasattr(x, 'co_code')]
                    if c.co_flags & 2:  # a function, not a module or class body
                        lines |= {n for _, _, n in c.co_lines() if n and n != c.co_firstlineno}
                res[name] = lines
        return res


def in_flixopt(tb):
    """does the exception come out of the code under test?"""
    last = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO + os.sep):
            last = f'{os.path.basename(fr.filename)}:{fr.name}'
    return last


def guarded(prop, sc, env):
    """execute one scenario -> info; raises Violation / HarnessError"""
    from dst.sim import HarnessError, SimCrash, Violation
    try:
        return prop.execute(sc, env)
    except (Violation, HarnessError):
        raise
    except RunTimeout:
        raise
    except SimCrash as e:
        raise HarnessError(f'unhandled simulated crash {e}') from e
    except BaseException as e:
        where = in_flixopt(e.__traceback__)
        if where and not isinstance(e, (MemoryError, SystemExit)):
            raise Violation('exception', f'{type(e).__name__} in {where}: {str(e)[:200]}') from e
        raise HarnessError(f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}') from e


def alarm(sig, frm):
    raise RunTimeout('run took too long')


def worker(pid, seed, tier, wid, nw, total, deadline, conn, stop, diary, resume):
    """runs wid, wid + nw, ...; `diary` survives the death of the process (the MILP library has been seen to abort): the run under
    way and what was done until a few runs before it. `resume`: (diary of the process that died, runs that killed one)"""
    from dst import prng
    from dst.sim import HarnessError, Violation
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    base = tempfile.mkdtemp(prefix='dst-')
    os.chdir(base)
    work = os.path.join(base, 'w')
    os.makedirs(work)
    with open(diary + '.base', 'w') as f:
        f.write(base)
    prop = load(pid)
    env = Env(work)
    reach = Reach()
    st = dict(runs=0, nontrivial=0, keys=set(), samples=[], errors=[], timeouts=0, foreign=collections.Counter(), digests=[], skipped=collections.Counter())
    found, start, lethal = None, wid, ()
    if resume:
        lethal = resume[1]
        try:
            with open(resume[0] + '.state', 'rb') as f:
                start, st, env.counts, reach.seen, env.sim_hours, env.sim_clock_s = pickle.load(f)
        except OSError:
            pass
    signal.signal(signal.SIGALRM, alarm)
    try:
        for idx in range(start, total, nw):
            if idx in lethal:
                st['skipped']['the MILP library crashed'] += 1
                continue
            if (idx - wid) // nw % 4 == 0:
                with open(diary + '.new', 'wb') as f:
                    pickle.dump((idx, st, env.counts, reach.seen, env.sim_hours, env.sim_clock_s), f)
                os.replace(diary + '.new', diary + '.state')
            with open(diary, 'w') as f:
                f.write(str(idx))
            if stop.is_set() or REAL_TIME() > deadline:
                break
            sc = None
            try:
                signal.alarm(RUN_LIMIT_S)
                rng = prng.stream(seed, pid, idx)
                sc = prop.generate(rng, tier)
                if sc is None:
                    st['skipped']['no scenario'] += 1
                    continue
                info = guarded(prop, sc, env)
                st['runs'] += 1
                if info.get('skip'):
                    st['skipped'][info['skip']] += 1
                elif info.get('nontrivial', True):
                    st['nontrivial'] += 1
                    st['keys'].add(info['key'])
                if len(st['samples']) < 1 and info.get('nontrivial', True) and not info.get('skip'):
                    st['samples'].append({'index': idx, 'scenario': sc, 'info': {k: v for k, v in info.items() if k != 'skip'}})
                if idx < 2 * nw:
                    st['digests'].append((idx, info['key']))
            except Violation as v:
                signal.alarm(0)
                st['runs'] += 1
                own = True
                if hasattr(prop, 'attribute'):
                    try:
                        signal.alarm(RUN_LIMIT_S)
                        sc, own = prop.attribute(sc, v, env, sum(st['foreign'].values()))
                    except RunTimeout:
                        own = True
                    except HarnessError as e:
                        st['errors'].append((idx, str(e)[:1500]))
                        continue
                if own:
                    found = dict(index=idx, cls=v.cls, message=v.message, scenario=sc)
                    stop.set()
                    break
                st['foreign'][f'{v.cls}: {v.message[:60]}'] += 1
            except HarnessError as e:
                st['errors'].append((idx, str(e)[:1500]))
                if len(st['errors']) > 3:
                    break
            except RunTimeout:
                st['timeouts'] += 1
                if st['timeouts'] > 3:
                    break
            except Exception as e:  # of the generator or the attribution
                st['errors'].append((idx, f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}'))
            finally:
                signal.alarm(0)
                env.clear()
    finally:
        os.chdir('/')
        shutil.rmtree(base, ignore_errors=True)
    st['counts'] = dict(env.counts)
    st['reach'] = reach.seen
    st['sim_hours'], st['sim_clock_s'] = env.sim_hours, env.sim_clock_s
    conn.send((st, found))
    conn.close()


def isolated(fn, limit):
    """run fn() in a forked child with silenced output; returns its value or None"""
    a, b = mp.Pipe(False)

    def child():
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        base = tempfile.mkdtemp(prefix='dst-')
        os.chdir(base)
        try:
            r = fn(base)
        except BaseException as e:
            r = ('error', f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}')
        os.chdir('/')
        shutil.rmtree(base, ignore_errors=True)
        b.send(r)
    p = mp.get_context('fork').Process(target=child)
    p.start()
    b.close()
    try:
        r = a.recv() if a.poll(limit) else None
    except EOFError:
        r = None
    p.join(5)
    if p.is_alive():
        p.kill()
    return r


def verdict(pid, sc, base):
    """(cls, message) of the violation this scenario shows, or None"""
    from dst.sim import Violation
    prop = load(pid)
    work = tempfile.mkdtemp(dir=base)
    try:
        guarded(prop, sc, Env(work))
    except Violation as v:
        return v.cls, v.message
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return None


def replay(pid, path):
    doc = json.load(open(path))
    r = isolated(lambda base: ('ok', verdict(pid, doc['scenario'], base)), 300)
    if r is None or r[0] != 'ok':
        print('replay failed:', r)
        return 2
    if r[1] is None:
        print(f'replay of {path}: no violation')
        return 0
    print(f'replay of {path}: [{r[1][0]}] {r[1][1]}')
    print(f'VIOLATION property={pid} replay={path}')
    return 1


def report(pid, seed, tier, found):
    """minimise, write the replay file, confirm it in a fresh process"""
    from dst.shrink import shrink
    sc0 = found['scenario']

    def mini(base):
        from dst.sim import HarnessError
        prop = load(pid)
        # a different exception is a different failure; otherwise the rule class decides
        if os.environ.get('VERIF_FAST'):  # for development: no minimisation
            return ('ok', sc0, 0, None)
        first = verdict(pid, sc0, base)

        def fails(sc):
            try:
                r = verdict(pid, sc, base)
            except (HarnessError, RunTimeout):
                return False
            if r is None or r[0] != (first or (found['cls'],))[0]:
                return False
            return r[0] != 'exception' or r[1][:40] == (first or found)[1][:40]
        if first is None or not hasattr(prop, 'candidates'):
            return ('ok', sc0, 0, first)
        sc, tries = shrink(sc0, fails, prop.candidates, budget=40 if tier == 'quick' else 120)
        return ('ok', sc, tries, verdict(pid, sc, base))
    r = isolated(mini, 200)
    sc, tries, v = (r[1], r[2], r[3]) if r is not None and r[0] == 'ok' else (sc0, 0, None)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    h = hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join('replays', f'{pid}-{h}.json')
    doc = {'property': pid, 'seed': seed, 'tier': tier, 'index': found['index'], 'class': (v or (found['cls'],))[0],
           'message': (v or (None, found['message']))[1], 'original_message': found['message'], 'minimisation_tries': tries, 'scenario': sc}
    with open(os.path.join(VERIF, path), 'w') as f:
        json.dump(doc, f, indent=1)
    p = subprocess.run([sys.executable, '-m', 'dst.run', pid, '--replay', path], cwd=VERIF, capture_output=True, text=True, timeout=400)
    ok = p.returncode == 1
    print(f'{pid}: [{doc["class"]}] {doc["message"]}')
    print(f'  run {found["index"]} of seed {seed}; minimised in {tries} tries; fresh-process replay '
          + ('reproduces it' if ok else f'did NOT reproduce it (exit {p.returncode})'))
    print(f'VIOLATION property={pid} replay={path}', flush=True)
    return path, ok


def known_findings(pid):
    res = []
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) replay=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return res


def main():
    setup_process()
    pid = sys.argv[1]
    os.chdir(VERIF)
    if '--replay' in sys.argv:
        sys.exit(replay(pid, sys.argv[sys.argv.index('--replay') + 1]))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    t0 = REAL_TIME()
    scratch = tempfile.mkdtemp(prefix='dst-main-')
    os.chdir(scratch)
    os.environ['DST_SEED'] = str(seed)
    try:
        import flixOpt  # noqa: F401  (imported before forking; no solver is touched here)
    except BaseException as e:
        print(f'cannot import flixOpt: {type(e).__name__}: {e}')
        sys.exit(2)
    prop = load(pid)
    os.chdir(VERIF)
    shutil.rmtree(scratch, ignore_errors=True)
    if '--index' in sys.argv:
        from dst import prng
        idx = int(sys.argv[sys.argv.index('--index') + 1])
        base = tempfile.mkdtemp(prefix='dst-')
        os.chdir(base)
        sc = prop.generate(prng.stream(seed, pid, idx), tier)
        print(json.dumps(sc, indent=1))
        print(guarded(prop, sc, Env(base)))
        return
    total = prop.runs.get(tier, prop.runs['quick'])
    if os.environ.get('VERIF_RUNS'):
        total = int(os.environ['VERIF_RUNS'])
    cap = {'quick': 400, 'thorough': 3300}[tier]
    deadline = t0 + cap
    ctx = mp.get_context('fork')
    stop = ctx.Event()
    diaries = tempfile.mkdtemp(prefix='dst-main-')

    def launch(w, resume=None):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(pid, seed, tier, w, WORKERS, total, deadline, b, stop, os.path.join(diaries, str(w)), resume))
        p.start()
        b.close()
        return p, a
    procs = [launch(w) for w in range(WORKERS)]
    stats, finds = [], []
    lethal = collections.defaultdict(list)
    for w in range(WORKERS):
        while True:
            p, a = procs[w]
            died = False
            try:
                if a.poll(max(1, deadline + RUN_LIMIT_S + 30 - REAL_TIME())):
                    s, f = a.recv()
                    stats.append(s)
                    if f:
                        finds.append(f)
            except EOFError:
                died = True
            p.join(10)
            if p.is_alive():
                p.kill()
            diary = os.path.join(diaries, str(w))
            if not died or len(lethal[w]) >= 5 or p.exitcode not in (-signal.SIGABRT, -signal.SIGSEGV) or not os.path.exists(diary):
                break
            lethal[w].append(int(open(diary).read()))
            shutil.rmtree(open(diary + '.base').read(), ignore_errors=True)
            procs[w] = launch(w, (diary, lethal[w]))
    shutil.rmtree(diaries, ignore_errors=True)
    wall = REAL_TIME() - t0
    counts = collections.Counter()
    foreign, skipped = collections.Counter(), collections.Counter()
    keys, samples, errors, reached = set(), [], [], set()
    for s in stats:
        counts.update(s['counts'])
        foreign.update(s['foreign'])
        skipped.update(s['skipped'])
        keys |= s['keys']
        samples += s['samples']
        errors += s['errors']
        reached |= s['reach']
    possible = Reach.possible()
    reached = {f: {n for g, n in reached if g == f} & possible[f] for f in possible}
    if os.environ.get('VERIF_REACH'):  # for development: which lines of flixOpt no run executed
        json.dump({f: sorted(reached[f]) for f in reached}, open(os.environ['VERIF_REACH'], 'w'))
    runs = sum(s['runs'] for s in stats)
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('fault:')}
    modes = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('solve:')}
    other = {k: v for k, v in sorted(counts.items()) if not k.startswith(('fault:', 'solve:', 'fs:'))}
    code, lines = 0, []
    for rp, what in known_findings(pid):
        r = isolated(lambda base: ('ok', verdict(pid, json.load(open(os.path.join(VERIF, rp)))['scenario'], base)), 200)
        if r and r[0] == 'ok' and r[1] is not None:
            lines.append(f'KNOWN-FINDING: property={pid} {what}')
    for ln in lines:
        print(ln)
    if finds:
        finds.sort(key=lambda f: f['index'])
        report(pid, seed, tier, finds[0])
        code = 1
    # the same seed must give the same execution: two runs again, in another process
    digs = sorted(d for s in stats for d in s['digests'])[:2]
    redo = None
    if digs and not finds:
        def again(base):
            from dst import prng
            pr, out = load(pid), []
            for idx, _ in digs:
                w = tempfile.mkdtemp(dir=base)
                out.append((idx, guarded(pr, pr.generate(prng.stream(seed, pid, idx), tier), Env(w))['key']))
            return out
        redo = isolated(again, 300)
    same = redo == digs if redo is not None else None
    sim_h = sum(s['sim_hours'] for s in stats)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs, 'distinct_nontrivial': len(keys), 'rule': prop.rule,
            'samples': [{'index': s['index'], 'info': s['info'], 'scenario': s['scenario']} for s in samples[:2]],
            'planned_runs': total, 'runs_per_hour': round(runs / max(wall, 1e-6) * 3600), 'seeds': 'every run has a seed of its own, derived from seed and index',
            'simulated_horizon_hours': round(sim_h, 2), 'simulated_clock_seconds': round(sum(s['sim_clock_s'] for s in stats), 1),
            'faults_injected': faults, 'solver_answers': modes,
            'file_operations': {k[3:]: v for k, v in sorted(counts.items()) if k.startswith('fs:')}, 'counters': other,
            'distinct_states_measure': prop.measure, 'attributed_to_other_properties': dict(foreign), 'skipped': dict(skipped),
            'timeouts': sum(s['timeouts'] for s in stats), 'harness_errors': len(errors), 'same_seed_same_execution': same,
            'lines_of_flixOpt_executed': {f: f'{len(reached[f])} of {len(possible[f])}' for f in possible if reached[f]},
            'real_components': prop.real, 'stubbed_components': prop.stub,
        },
        'assumptions': prop.assumptions, 'wall_s': round(REAL_TIME() - t0, 1), 'violations': len(finds),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{pid}: {runs}/{total} runs, {len(keys)} distinct non-trivial, {wall:.0f} s, faults {sum(faults.values())}, '
          f'foreign {sum(foreign.values())}, skipped {sum(skipped.values())}, errors {len(errors)}, deterministic {same}')
    for i, e in errors[:2]:
        print(f'harness error in run {i}: {e}')
    if code == 0 and (errors or len(stats) < WORKERS or runs == 0):
        code = 2
    sys.exit(code)


if __name__ == '__main__':
    main()
