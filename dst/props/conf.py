"""C01: loading configurations, log set-up."""
import contextlib
import gc
import hashlib
import io
import json
import logging
import os
import pathlib
import sys

from .. import sim
from ..sim import REAL_IO_OPEN, HarnessError, Violation
from ..world import js
from .base import Prop

LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
WRONG = {  # values that are no valid setting
    ('config_name',): [12, None, ['x']],
    ('logging', 'level'): ['LOUD', 10, None, 'info', ['INFO'], {'a': 1}],
    ('logging', 'file'): [5, ['a.log'], True, {'a': 1}, 2.5],
    ('logging', 'rich'): ['yes!', 1, None, [True]],
    ('modeling', 'BIG'): ['1e7', 2.5, None, [1]],
    ('modeling', 'EPSILON'): ['small', 1, None, [0.1]],
    ('modeling', 'BIG_BINARY_BOUND'): ['100', 3.5, None, {'a': 1}],
    ('logging',): ['INFO', None, 5, ['INFO'], True],
    ('modeling',): [10, None, 'x', [1], False],
}
RAW = ['', '# nothing\n', '- a\n- b\n', 'just text', 'logging: [1, 2', 'a:\n\t- b: {', '42\n', 'x\x00y: 1\n', 'null\n', 'logging: &a *a\n']


def config(rng, i):
    return {'config_name': f'c{i}',
            'logging': {'level': rng.choice(LEVELS), 'file': rng.choice(['a.log', 'a.log', 'b.log', 'sub/c.log', 'ä ö.log']), 'rich': rng.random() < 0.3},
            'modeling': {'BIG': rng.randint(10 ** 4, 10 ** 8), 'EPSILON': rng.choice([1e-3, 0.00025, 1e-05]), 'BIG_BINARY_BOUND': rng.randint(100, 10 ** 6)}}


class C01(Prop):
    runs = {'quick': 4000, 'thorough': 60000}
    real = ['flixOpt.config', 'logging', 'rich', 'yaml', 'file system below the scratch directory']
    stub = ['disk errors', 'console streams']
    rule = ('random sequences of loading good, incomplete, invalid, malformed, missing and unreadable configuration files and files whose log file cannot be '
            'opened, of level changes and of log messages; settings, level and the arrival of every message are compared with a small model. '
            'Non-trivial: at least one load succeeded, one failed, and a message was logged afterwards.')
    measure = 'distinct sequences of outcomes'

    def generate(self, rng, tier):
        ops = [{'do': 'load', 'data': config(rng, 0), 'valid': True}]
        for i in range(1, rng.randint(4, 12)):
            q = rng.random()
            if q < 0.55:
                op = {'do': 'load', 'data': config(rng, i), 'valid': True, 'path': rng.random() < 0.5}
                k = rng.random()
                if k < 0.3:  # something inside is wrong
                    op['valid'] = False
                    m = rng.random()
                    if m < 0.3:
                        op['raw'] = rng.choice(RAW)
                    elif m < 0.6:
                        key = rng.choice(sorted(WRONG))
                        op['data'] = self.put(op['data'], key, rng.choice(WRONG[key]))
                    else:
                        op['data'] = self.put(op['data'], rng.choice(sorted(WRONG)), None, delete=True)
                elif k < 0.42:  # the log file cannot be opened
                    op['valid'] = False
                    op['data']['logging']['file'] = rng.choice(['dir', 'none/x.log', 'a.log/x.log', '', 'x' * 300, 'a\0b'])
                elif k < 0.62:  # the disk fails
                    op['fs'] = [rng.choice([{'match': ['open', r'\.log$', 1]}, {'match': ['open-read', r'\.yaml$', 1]}, {'match': ['close', r'\.log$', 1]}])]
                    op['fs'][0]['kind'] = rng.choice(['eacces', 'enospc', 'emfile', 'eio', 'interrupt'] if op['fs'][0]['match'][0] != 'close' else ['enospc', 'eio'])
                elif k < 0.7:
                    op['valid'] = False
                    op['where'] = rng.choice(['missing', 'directory'])
                elif k < 0.76:
                    op['data']['extra'] = {'level': 'ERROR'}
                    op['valid'] = None
                elif k < 0.84:
                    op['where'] = 'default'
            elif q < 0.7:
                op = {'do': 'level', 'name': rng.choice(LEVELS + ['debug', 'LOUD', ''])}
            else:
                op = {'do': 'log', 'level': rng.choice(LEVELS), 'lines': rng.choice([1, 1, 2])}
            ops.append(op)
        return js({'ops': ops})

    @staticmethod
    def put(data, key, value, delete=False):
        d = js(data)
        node = d
        for k in key[:-1]:
            node = node[k]
        if delete:
            del node[key[-1]]
        else:
            node[key[-1]] = value
        return d

    def candidates(self, sc):
        for i in range(len(sc['ops']) - 1, 0, -1):
            c = js(sc)
            del c['ops'][i]
            yield c
        for i, o in enumerate(sc['ops']):
            if o.get('fs'):
                c = js(sc)
                del c['ops'][i]['fs']
                yield c

    # ------------------------------------------------------------------
    def execute(self, sc, env):
        import flixOpt as fx
        root = env.dir()
        s = sim.Sim(root=root)
        s.epsilon = None
        lg = logging.getLogger('flixOpt')
        keep = (fx.CONFIG.config_name, fx.CONFIG.logging, fx.CONFIG.modeling)
        cwd = os.getcwd()
        out = io.StringIO()
        so, se = sys.stdout, sys.stderr
        with s.installed():
            lg.handlers[:] = []
            os.chdir(root)
            sys.stdout = sys.stderr = out
            try:
                return self.run(sc, env, s, root, lg, out, fx)
            finally:
                sys.stdout, sys.stderr = so, se
                s.fs.plan = []
                for h in lg.handlers[:]:
                    with contextlib.suppress(Exception):
                        h.close()
                os.chdir(cwd)
                fx.CONFIG.config_name, fx.CONFIG.logging, fx.CONFIG.modeling = keep
                env.absorb(s)

    def settings(self, fx):
        d = fx.CONFIG.to_dict()
        return js({k: (vars(v) if hasattr(v, '__dict__') else v) for k, v in d.items() if k in ('config_name', 'logging', 'modeling')})

    def run(self, sc, env, s, root, lg, out, fx):
        import yaml
        os.mkdir('sub')
        os.mkdir('dir')
        with REAL_IO_OPEN(os.path.join(os.path.dirname(fx.config.__file__), 'config.yaml')) as f:
            default = yaml.safe_load(f)
        state = None        # configuration in force
        threshold = None    # level in force
        sent = []           # (id, file or None)
        n_ok = n_bad = n_after = 0
        trace = []

        def message(level, lines=1):
            ids = [f'MSG{len(sent) + k:04d}X' for k in range(lines)]
            arrives = LEVELS.index(level) >= LEVELS.index(threshold)
            sent.extend((i, os.path.normpath(state['logging']['file']) if arrives else None) for i in ids)
            lg.log(getattr(logging, level), '\n'.join(ids))

        def verify(what):
            got = self.settings(fx)
            want = {k: state[k] for k in ('config_name', 'logging', 'modeling')}
            if got != want:
                raise Violation('settings', f'{what}: settings are {got}, expected {want}')
            if fx.Flow('f', fx.Bus('b')).size != state['modeling']['BIG']:
                raise Violation('settings', f'{what}: the default size is not the BIG that was configured')
            if lg.getEffectiveLevel() != getattr(logging, threshold):
                raise Violation('level', f'{what}: log level is {logging.getLevelName(lg.getEffectiveLevel())}, expected {threshold}')
            message('CRITICAL')
            for h in lg.handlers:
                h.flush()
            console = out.getvalue()
            files = {}
            for d, _, names in os.walk('.'):
                for nm in names:
                    if nm.endswith('.log') or nm == 'x' * 300:
                        p = os.path.normpath(os.path.join(d, nm))
                        with REAL_IO_OPEN(p, encoding='utf-8') as f:
                            files[p] = f.read()
            for i, dest in sent:
                k = console.count(i)
                if k != (dest is not None):
                    raise Violation('console', f'{what}: a message arrived {k} times at the console, expected {int(dest is not None)}')
                for p in sorted(set(files) | ({dest} if dest else set())):
                    k = files.get(p, '').count(i)
                    if k != (p == dest):
                        raise Violation('log file', f'{what}: a message arrived {k} times in {p!r}, expected {int(p == dest)} (current log file {state["logging"]["file"]!r})')

        def descriptors():
            s.fs.opened[:] = []
            n = {}
            for fd in os.listdir('/proc/self/fd'):
                with contextlib.suppress(OSError):
                    t = os.readlink(f'/proc/self/fd/{fd}')
                    if t.startswith(os.path.realpath(root) + os.sep):
                        n[t] = n.get(t, 0) + 1
            return n

        for i, op in enumerate(sc['ops']):
            if op['do'] == 'log':
                message(op['level'], op['lines'])
                continue
            if op['do'] == 'level':
                valid = op['name'].upper() in LEVELS
                try:
                    fx.change_logging_level(op['name'])
                    if valid:
                        threshold = op['name'].upper()
                    else:
                        raise Violation('level', f'the level {op["name"]!r} was accepted')
                except (ValueError, KeyError, TypeError, AttributeError):
                    if valid:
                        raise
                trace.append(('level', valid))
                verify(f'after level {op["name"]!r}')
                continue
            name = f'c{i}.yaml'
            where = op.get('where')
            if where is None:
                with REAL_IO_OPEN(name, 'w', encoding='utf-8') as f:
                    f.write(op['raw'] if 'raw' in op else yaml.safe_dump(op['data'], allow_unicode=True))
            elif where == 'directory':
                os.mkdir(name)
            arg = None if where == 'default' else (pathlib.Path(name) if op.get('path') else name)
            new = default if where == 'default' else op['data']
            s.fs.plan = [dict(f) for f in op.get('fs', [])]
            s.fs.fired = []
            err = None
            try:
                fx.CONFIG.load_config(arg)
            except (Exception, KeyboardInterrupt) as e:
                err = e
            s.fs.plan = []
            fired = bool(s.fs.fired)
            what = f'after loading {where or op.get("raw", op["data"])}' + (f' with {s.fs.fired}' if fired else '')
            if err is None:
                if op['valid'] is False and where != 'default':
                    raise Violation('accepted', f'{what}: no error')
                if fired and s.fs.fired[0][1] != 'close':
                    raise Violation('accepted', f'{what}: no error')
                state, threshold = new, new['logging']['level']
                n_ok += 1
            else:
                if (op['valid'] or where == 'default') and not fired:
                    raise Violation('refused', f'{what}: {type(err).__name__}: {str(err)[:200]}') from err
                if state is None:
                    return {'key': 'none', 'nontrivial': False}
                n_bad += 1
                fired and env.counts.update(['refused load'])
            err = None
            trace.append(('load', where or ('raw' if 'raw' in op else op['valid']), fired, n_ok))
            verify(what + (' (refused)' if trace and n_bad and trace[-1][3] == n_ok else ''))
            fds = descriptors()
            cur = os.path.realpath(state['logging']['file'])
            if {k: v for k, v in fds.items() if k != cur} or fds.get(cur, 0) > 1:
                gc.collect()
                fds = descriptors()
                if {k: v for k, v in fds.items() if k != cur} or fds.get(cur, 0) > 1:
                    raise Violation('open files', f'{what}: open descriptors {[(os.path.basename(k), v) for k, v in fds.items()]}, current log file {state["logging"]["file"]!r}')
            n_after += n_ok > 0 and n_bad > 0
        env.sim_hours += 0.0
        return {'key': hashlib.sha256(json.dumps(trace).encode()).hexdigest()[:16], 'nontrivial': n_after > 0, 'trace': trace}


def make(pid):
    return C01(pid)
