"""The simulator: every outside party flixOpt talks to, under one seed.

  solver      pyomo's appsi Highs and SolverFactory are replaced by simulated
              back ends; all five flixOpt solver classes run for real on top.
  disk        open/replace/rename/unlink/mkdir below the run's root directory
              go through FsSim: every operation is counted and can crash the
              process (torn prefix), fail (ENOSPC, EIO, EACCES) or interrupt.
  clock       timeit.default_timer and datetime.now() read a simulated clock.
  layout      Element.__hash__ can be salted (simulated object addresses).
  browser     webbrowser.open and figure.show() are recording stand-ins.
"""
import builtins
import contextlib
import datetime as real_datetime
import errno
import hashlib
import io
import logging
import os
import pathlib
import re
import time as real_time
import timeit
import types

import numpy as np

REAL_OPEN = builtins.open
REAL_IO_OPEN = io.open
REAL_TIMER = timeit.default_timer


EPSILON = 1e-3
BAD_MODES = ('infeasible', 'unbounded', 'nosol', 'raise', 'interrupt', 'missing', 'error', 'early', 'noise')


class SimCrash(BaseException):
    """The simulated process died here."""


class Violation(Exception):
    def __init__(self, cls, message, **details):
        super().__init__(f'[{cls}] {message}')
        self.cls, self.message, self.details = cls, message, details


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
# the optimisation problem handed to the solver
# --------------------------------------------------------------------------

_STRIP = re.compile(r'__\d+(?=(\[\d+\])?$)')
_QUOTED = re.compile(r"'(.*)'(\[\d+\])?$", re.S)  # Pyomo quotes unusual names


def strip(name):
    m = _QUOTED.match(name)
    if m:
        name = m.group(1) + (m.group(2) or '')
    return _STRIP.sub('', name, count=1)


def num(x):
    if x is None:
        return None
    x = float(x)
    if x == 0:
        return 0.0
    return float(f'{x:.10g}')


class Problem:
    """A linear problem extracted from the Pyomo model given to the solver."""

    def __init__(self, model):
        import pyomo.environ as pyo
        from pyomo.repn import generate_standard_repn
        self.vars, self.lb, self.ub, self.binary, self.fixed, self.names = [], [], [], [], [], []
        idx = {}
        for v in model.component_data_objects(pyo.Var, active=True):
            idx[id(v)] = len(self.vars)
            self.vars.append(v)
            self.names.append(strip(v.name))
            lb, ub = v.lb, v.ub
            self.lb.append(-np.inf if lb is None else float(lb))
            self.ub.append(np.inf if ub is None else float(ub))
            self.binary.append(bool(v.is_binary() or v.is_integer()))
            self.fixed.append(float(v.value) if v.fixed else None)
        self.rows = []  # (lo, hi, const-free terms [(i, coef)])
        for c in model.component_data_objects(pyo.Constraint, active=True):
            r = generate_standard_repn(c.body, compute_values=True)
            if not r.is_linear():
                raise HarnessError(f'nonlinear constraint {c.name}')
            k = float(r.constant)
            terms = [(idx[id(v)], float(a)) for v, a in zip(r.linear_vars, r.linear_coefs)]
            lo = -np.inf if c.lower is None else float(pyo.value(c.lower)) - k
            hi = np.inf if c.upper is None else float(pyo.value(c.upper)) - k
            self.rows.append((lo, hi, terms))
        objs = list(model.component_data_objects(pyo.Objective, active=True))
        if len(objs) != 1:
            raise SolverFault(f'{len(objs)} objectives')
        r = generate_standard_repn(objs[0].expr, compute_values=True)
        self.sense = 1 if objs[0].sense == pyo.minimize else -1
        self.obj_const = float(r.constant)
        self.obj = [(idx[id(v)], float(a)) for v, a in zip(r.linear_vars, r.linear_coefs)]
        self._arrays = None

    # canonical, order-insensitive form
    def canonical(self):
        vs = sorted((n, num(self.lb[i]), num(self.ub[i]), self.binary[i], num(self.fixed[i])) for i, n in enumerate(self.names))
        cs = []
        for lo, hi, terms in self.rows:
            acc = {}
            for i, a in terms:
                acc[self.names[i]] = acc.get(self.names[i], 0.0) + a
            t = tuple(sorted((n, num(a)) for n, a in acc.items() if a != 0))
            lo, hi = num(lo), num(hi)
            if lo == hi and t and t[0][1] < 0:  # an equation and its negation are the same
                t = tuple((n, num(-a)) for n, a in t)
                lo = hi = num(-lo) if lo else lo
            cs.append((t, lo, hi))
        cs.sort(key=repr)
        o = tuple(sorted((self.names[i], num(a)) for i, a in self.obj))
        return vs, cs, o, self.sense

    def fingerprint(self):
        return hashlib.sha256(repr(self.canonical()).encode()).hexdigest()[:16]

    # exact form in the order given
    def ordered(self):
        vs = [(n, self.lb[i], self.ub[i], self.binary[i], self.fixed[i]) for i, n in enumerate(self.names)]
        cs = [(lo, hi, tuple((self.names[i], a) for i, a in terms)) for lo, hi, terms in self.rows]
        return vs, cs, tuple((self.names[i], a) for i, a in self.obj)

    def ordered_fingerprint(self):
        return hashlib.sha256(repr(self.ordered()).encode()).hexdigest()[:16]

    def arrays(self):
        if self._arrays is None:
            from scipy import sparse
            nv = len(self.vars)
            r, c, v = [], [], []
            for k, (_, _, terms) in enumerate(self.rows):
                for i, a in terms:
                    r.append(k)
                    c.append(i)
                    v.append(a)
            A = sparse.csr_matrix((v, (r, c)), shape=(len(self.rows), nv))
            lo = np.array([x[0] for x in self.rows])
            hi = np.array([x[1] for x in self.rows])
            lb, ub = np.array(self.lb), np.array(self.ub)
            for i, f in enumerate(self.fixed):
                if f is not None:
                    lb[i] = ub[i] = f
            cost = np.zeros(nv)
            for i, a in self.obj:
                cost[i] += a * self.sense
            self._arrays = (A, lo, hi, lb, ub, cost, np.array(self.binary, dtype=int))
        return self._arrays

    def solve_robust(self):
        """best verified answer of several runs (scipy's HiGHS is not infallible)"""
        best, sts = None, set()
        for presolve in (True, False):
            st, x = self.solve(presolve=presolve)
            sts.add(st)
            if x is not None and self.check_feasible(x):
                v = self.objective_value(x)
                if best is None or v * self.sense < best[1] * self.sense:
                    best = ('optimal', v, x)
        if best is not None:
            return best
        return ('infeasible' if sts == {'infeasible'} else 'unknown'), None, None

    def solve(self, cost=None, extra=None, polish=True, box=None, presolve=True):
        """('optimal'|'infeasible'|'unbounded'|'unknown', x)"""
        from scipy import sparse
        from scipy.optimize import Bounds, LinearConstraint, milp
        A, lo, hi, lb, ub, c0, integ = self.arrays()
        if cost is None:
            cost = c0
        if box is not None:
            lb, ub = np.maximum(lb, box[0]), np.minimum(ub, box[1])
        if extra is not None:
            A = sparse.vstack([A, sparse.csr_matrix(extra[0])])
            lo, hi = np.append(lo, extra[1]), np.append(hi, extra[2])
        if np.any(lb > ub + 1e-9) or A.shape[1] == 0:
            return 'infeasible', None
        kw = dict(constraints=LinearConstraint(A, lo, hi), options={'mip_rel_gap': 0.0, 'time_limit': 20.0, 'presolve': presolve})
        r = milp(cost, integrality=integ, bounds=Bounds(lb, np.maximum(lb, ub)), **kw)
        st = {0: 'optimal', 2: 'infeasible', 3: 'unbounded'}.get(r.status, 'unknown')
        if st != 'optimal':
            return st, None
        x = r.x
        if polish and integ.any():
            lb2, ub2 = lb.copy(), ub.copy()
            m = integ == 1
            lb2[m] = ub2[m] = np.round(x[m])
            r2 = milp(cost, bounds=Bounds(lb2, np.maximum(lb2, ub2)), **kw)
            if r2.status == 0:
                x = r2.x.copy()
                x[m] = np.round(x[m])
        return 'optimal', np.clip(x, lb, np.maximum(lb, ub))

    def objective_value(self, x):
        return float(self.obj_const + sum(a * x[i] for i, a in self.obj))

    def check_feasible(self, x, tol=1e-5):
        A, lo, hi, lb, ub, _, _ = self.arrays()
        ax = A @ x
        return bool(np.all(ax >= lo - tol) and np.all(ax <= hi + tol) and np.all(x >= lb - tol) and np.all(x <= ub + tol))


# --------------------------------------------------------------------------
# solver back ends
# --------------------------------------------------------------------------

class SolverFault(RuntimeError):
    """error raised by a simulated solver"""


class SimSolverCore:
    """Decides what the simulated solver answers. One instance per Sim."""

    def __init__(self, sim):
        self.sim = sim
        self.script = []   # list of behaviours, consumed per solve call
        self.default = {'mode': 'opt'}
        self.calls = []
        self.keep_problems = False

    def decide(self, model, backend, options, logfile, settings=None):
        sim = self.sim
        sim.yield_point('solver')
        b = self.script.pop(0) if self.script else dict(self.default)
        P = Problem(model)
        rec = {'backend': backend, 'mode': b['mode'], 'fp': None, 'options': options, 'logfile': logfile, 'problem': None, 'settings': settings}
        if b['mode'] == 'timed':  # needs so many seconds to prove optimality
            limit = (settings or {}).get('limit')
            stop = limit is not None and limit < b['needs']
            sim.clock.t += min(b['needs'], limit) if stop else b['needs']
            sim.clock.span += min(b['needs'], limit) if stop else b['needs']
            b = dict(b, mode=('early' if b.get('incumbent') else 'nosol') if stop else 'opt', tc='maxTimeLimit')
            rec['stopped'] = stop
        rec['fp'] = P.fingerprint()
        rec['problem'] = P if self.keep_problems else None
        self.calls.append(rec)
        sim.count('solve:' + b['mode'])
        if b['mode'] in BAD_MODES:
            sim.count('fault:solver:' + b['mode'] + (':' + b['tc'] if 'tc' in b else ''))
        res = self._answer(P, b)
        rec['outcome'] = res[0]
        rec['x'] = None if res[1] is None else res[1]
        rec['bound'] = None if res[1] is None else P.objective_value(res[1]) - (0.0 if res[0] == 'optimal' else 1.0)
        rec['P'] = P if self.keep_problems else None
        sim.yield_point('solver-done')
        return P, b, res

    def _answer(self, P, b):
        mode = b['mode']
        if mode in ('infeasible', 'unbounded', 'nosol', 'raise', 'interrupt', 'missing', 'error'):
            return mode, None
        if mode == 'opt':
            return P.solve()
        rng = np.random.default_rng(b.get('seed', 0))
        if mode in ('vertex', 'tie', 'push'):
            A, lo, hi, lb, ub, c0, integ = P.arrays()
            nv = len(P.vars)
            if mode == 'push':  # towards the extremes of very few variables
                cand = [i for i, nm in enumerate(P.names) if re.search(b.get('pattern') or '.', nm) and P.fixed[i] is None]
                cand = cand or [i for i in range(nv) if P.fixed[i] is None] or [0]
                cost = np.zeros(nv)
                for i in rng.choice(cand, size=min(len(cand), int(rng.integers(1, 4))), replace=False):
                    cost[i] = rng.choice([-1.0, 1.0]) * (1 + rng.random())
            else:
                cost = np.where(rng.random(nv) < b.get('density', 0.5), rng.normal(size=nv), 0.0)
            blo = np.where(cost != 0, -1e3, -np.inf)
            bhi = np.where(cost != 0, 1e3, np.inf)
            extra = None
            if mode == 'tie':
                st, x = P.solve()
                if st != 'optimal':
                    return st, x
                v = float(c0 @ x)
                extra = (c0.reshape(1, -1), -np.inf, v + 1e-7 * max(1, abs(v)))
            st2, x2 = P.solve(cost, extra=extra, box=(np.maximum(lb, blo), np.minimum(ub, bhi)))
            if st2 == 'optimal':
                return ('optimal' if mode == 'tie' else 'feasible'), x2
            if mode == 'tie':
                return 'optimal', x
            st, x = P.solve()
            return st, x
        if mode == 'early':  # best incumbent found when the time limit hit
            return self._answer(P, dict(b, mode='vertex'))
        if mode == 'noise':
            if b.get('given') is not None:
                st, x = b.get('status', 'optimal'), np.array(b['given'])
                if len(x) != len(P.vars):
                    raise HarnessError('answer for another problem')
            else:
                st, x = self._answer(P, dict(b, mode=b.get('inner', 'opt')))
            if x is None:
                return st, x
            x = x.copy()
            tol = b.get('tol', 1e-6)
            for i in range(len(x)):
                if P.fixed[i] is not None:
                    continue
                if P.binary[i]:
                    k = rng.integers(4)
                    d = tol * (rng.random() if k else 0.0)
                    x[i] = abs(round(x[i]) - d) if x[i] > 0.5 else (d if k != 3 else -d)
                elif rng.random() < 0.5:
                    x[i] = x[i] + 1e-9 * rng.choice([-1, 1]) * max(1.0, abs(x[i]))
            return st, x
        raise HarnessError(mode)


def _load(P, x):
    for v, val, f in zip(P.vars, x, P.fixed):
        if f is None:
            v.set_value(float(val), skip_validation=True)
            v.stale = False


class SimHighs:
    """stand-in for pyomo.contrib.appsi.solvers.Highs"""

    def __init__(self, sim, **kw):
        self._sim = sim
        self.highs_options = {}
        self.config = types.SimpleNamespace(
            stream_solver=False, load_solution=True, time_limit=None, mip_gap=None, logfile='', warmstart=True,
            solver_output_logger=None, log_level=None, report_timing=False, treat_fixed_vars_as_params=True)
        self.update_config = types.SimpleNamespace()

    def available(self, *a, **k):
        return True

    def solve(self, model, timer=None, **kw):
        from pyomo.contrib.appsi.base import Results, TerminationCondition as TC
        logfile = self.highs_options.get('log_file')
        sim = self._sim
        o, c = self.highs_options, self.config
        settings = {'gap': c.mip_gap if c.mip_gap is not None else o.get('mip_rel_gap'), 'threads': o.get('threads'),
                    'limit': c.time_limit if c.time_limit is not None else o.get('time_limit'), 'kept': False,
                    'console': bool(c.stream_solver and o.get('output_flag', True) and o.get('log_to_console', True))}
        P, b, (st, x) = sim.solver.decide(model, 'highs', dict(self.highs_options), logfile, settings)
        if logfile:
            with builtins.open(str(logfile), 'a') as f:
                f.write('simulated HiGHS log\n')
        if st == 'interrupt':
            raise KeyboardInterrupt('interrupted in solver')
        if st in ('raise', 'error'):
            raise SolverFault('simulated solver crash')
        if st == 'missing':
            raise ModuleNotFoundError('simulated: solver not available')
        r = Results()
        r.best_feasible_objective = None
        r.best_objective_bound = -np.inf
        if x is not None:
            _load(P, x)
            r.best_feasible_objective = P.objective_value(x)
            if st == 'optimal':
                r.termination_condition = TC.optimal
                r.best_objective_bound = r.best_feasible_objective
            else:
                r.termination_condition = TC[b.get('tc', 'maxTimeLimit')]
                r.best_objective_bound = r.best_feasible_objective - 1.0
            return r
        r.termination_condition = {'infeasible': TC.infeasible, 'unbounded': TC.unbounded, 'nosol': TC.maxTimeLimit}.get(st, TC.unknown)
        if self.config.load_solution:
            raise RuntimeError(
                'A feasible solution was not found, so no solution can be loaded. Please set opt.config.load_solution=False '
                f'and check results.termination_condition ({r.termination_condition}).')
        return r


class SimLegacySolver:
    """stand-in for pyomo.SolverFactory(...) objects (gurobi, cplex, cbc, glpk)"""

    def __init__(self, sim, name):
        self._sim, self.name = sim, name
        self.options = {}

    def available(self, *a, **k):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def solve(self, model, tee=False, keepfiles=False, logfile=None, options=None, load_solutions=True, **kw):
        from pyomo.opt import SolverResults, SolverStatus, TerminationCondition as TC
        opts = dict(self.options)
        opts.update(options or {})
        low = {str(k).lower(): v for k, v in opts.items()}
        names = {'gurobi': ('mipgap', 'timelimit'), 'cplex': ('mipgap mip_tolerances_mipgap', 'timelimit'),
                 'cbc': ('ratio ratiogap', 'sec seconds'), 'glpk': ('mipgap', 'tmlim')}[self.name]
        gap, limit = ([low[k] for k in n.split() if k in low] for n in names)
        limit = [kw['timelimit']] if kw.get('timelimit') is not None else limit
        settings = {'gap': gap[0] if gap else None, 'limit': limit[0] if limit else None, 'threads': low.get('threads'), 'console': bool(tee),
                    'kept': bool(keepfiles)}
        P, b, (st, x) = self._sim.solver.decide(model, self.name, opts, logfile, settings)
        if st == 'missing':
            from pyomo.common.errors import ApplicationError
            raise ApplicationError(f"No executable found for solver '{self.name}'")
        if logfile:
            with builtins.open(str(logfile), 'w') as f:
                f.write(f'simulated {self.name} log\n')
        if st == 'interrupt':
            raise KeyboardInterrupt('interrupted in solver')
        if st == 'raise':
            from pyomo.common.errors import ApplicationError
            raise ApplicationError(f'Solver ({self.name}) did not exit normally')
        if st == 'error':
            raise ValueError('Cannot load a SolverResults object with bad status: error')
        r = SolverResults()
        r.problem.lower_bound = -float('inf')
        if x is not None:
            _load(P, x)
            v = P.objective_value(x)
            r.problem.upper_bound = v
            if st == 'optimal':
                r.problem.lower_bound = v
                r.solver.status, r.solver.termination_condition = SolverStatus.ok, TC.optimal
                r.solver.termination_message = 'optimal'
            else:
                r.problem.lower_bound = v - 1.0
                tc = b.get('tc', 'maxTimeLimit')
                r.solver.status, r.solver.termination_condition = SolverStatus.aborted if b.get('aborted') else SolverStatus.ok, TC[tc]
                r.solver.termination_message = f'stopped: {tc}'
            return r
        r.solver.status = SolverStatus.warning
        r.solver.termination_condition = {'infeasible': TC.infeasible, 'unbounded': TC.unbounded, 'nosol': TC.maxTimeLimit}.get(st, TC.unknown)
        r.solver.termination_message = st
        return r  # pyomo only warns and loads nothing


# --------------------------------------------------------------------------
# disk
# --------------------------------------------------------------------------

class SimTextFile:
    """write-mode text file: data reaches the disk on flush/close, or a torn
    prefix of it when the process dies"""

    def __init__(self, fs, path, mode, encoding, errors, newline):
        self.fs, self.path, self.name, self.mode = fs, path, str(path), mode
        self.encoding = encoding or 'utf-8'
        self.errors = errors
        self._real = REAL_IO_OPEN(path, mode, encoding=encoding, errors=errors, newline=newline)
        self._chunks = []
        self.closed = False
        self._failed = False
        fs.opened.append(self)

    def _persist(self, fraction=1.0):
        text = ''.join(self._chunks)
        self._chunks = []
        if fraction < 1.0:
            text = text[:int(len(text) * fraction)]
        self._real.write(text)
        self._real.flush()

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not isinstance(s, str):
            raise TypeError(f'write() argument must be str, not {type(s).__name__}')
        self.fs.op('write', self.path, self)
        self._chunks.append(s)
        return len(s)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        if not self.closed and not self.fs.dead:
            self._persist()

    def tell(self):
        self._persist()
        return self._real.tell()

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False

    def readable(self):
        return False

    def writable(self):
        return True

    def seekable(self):
        return False

    def die(self, fraction):
        if not self.closed:
            self.closed = True
            with contextlib.suppress(Exception):
                self._persist(fraction)
                self._real.close()

    def close(self):
        if self.closed:
            return
        try:
            self.fs.op('close', self.path, self)
        except OSError:
            self.closed = True
            self._persist(self.fs.torn_fraction())
            self._real.close()
            raise
        except SimCrash:
            self.die(self.fs.torn_fraction())
            raise
        self.closed = True
        self._persist()
        self._real.close()
        if self in self.fs.opened:
            self.fs.opened.remove(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __del__(self):
        if not getattr(self, 'closed', True):
            self.closed = True
            with contextlib.suppress(Exception):
                if not self.fs.dead:
                    self._persist()
                self._real.close()


class SimBinFile:
    def __init__(self, fs, path, mode, kw):
        self._fs, self._path = fs, path
        self._real = REAL_IO_OPEN(path, mode, **kw)

    def write(self, b):
        self._fs.op('write', self._path, None)
        return self._real.write(b)

    def close(self):
        if not self._real.closed:
            try:
                self._fs.op('close', self._path, None)
            finally:
                self._real.close()

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class FsSim:
    """Counts and disturbs file operations below root.

    plan: list of {'at': op number, 'kind': crash|enospc|eio|eacces|interrupt, 'frac': 0..1}
    or {'match': [optype, filename regex, nth], 'kind': ...}
    """

    def __init__(self, sim, root):
        self.sim, self.root = sim, os.path.realpath(root)
        self.log = []
        self.plan = []
        self.dead = False
        self.opened = []
        self.active = True
        self._frac = 0.5
        self.fired = []

    def mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, path):
        return os.path.relpath(os.path.abspath(os.fspath(path)), self.root)

    def torn_fraction(self):
        return self._frac

    def op(self, kind, path, fobj):
        if not self.active:
            return
        if self.dead:
            raise SimCrash('process is dead')
        self.sim.yield_point('fs')
        k = len(self.log)
        self.log.append((kind, self.rel(path)))
        self.sim.count('fs:' + kind)
        for f in self.plan:
            if f.get('done'):
                continue
            hit = f.get('at') == k
            if not hit and 'match' in f:
                ot, rx, nth = f['match']
                if ot == kind and re.search(rx, self.rel(path)):
                    f['seen'] = f.get('seen', 0) + 1
                    hit = f['seen'] == nth
            if hit:
                f['done'] = True
                self._frac = f.get('frac', 0.5)
                self.fired.append((f['kind'], kind, self.rel(path)))
                self.sim.count('fault:' + f['kind'] + ':' + kind)
                self._fire(f['kind'], path)

    def _fire(self, kind, path):
        if kind == 'crash':
            self.dead = True
            for f in list(self.opened):
                f.die(self._frac)
            self.opened = []
            raise SimCrash('simulated crash')
        if kind == 'interrupt':
            raise KeyboardInterrupt('simulated interrupt')
        no = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'eacces': errno.EACCES, 'emfile': errno.EMFILE}[kind]
        raise OSError(no, os.strerror(no), str(path))

    # replacements -------------------------------------------------------
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or not self.active or not self.mine(file) or opener is not None:
            return REAL_IO_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in 'wax+')
        self.op('open' if writing else 'open-read', file, None)
        if not writing:
            return REAL_IO_OPEN(file, mode, buffering, encoding, errors, newline)
        if 'b' in mode:
            return SimBinFile(self, file, mode, {'buffering': 0} if '+' not in mode else {})
        if '+' in mode and 'w' in mode:
            mode = mode.replace('+', '')
        if '+' in mode:
            return REAL_IO_OPEN(file, mode, buffering, encoding, errors, newline)
        return SimTextFile(self, file, mode, encoding, errors, newline)

    def wrap2(self, name, real):
        def f(src, dst, *a, **k):
            if self.active and (self.mine(src) or self.mine(dst)):
                self.op(name, dst, None)
            return real(src, dst, *a, **k)
        return f

    def wrap1(self, name, real):
        def f(path, *a, **k):
            if self.active and not isinstance(path, int) and self.mine(path):
                self.op(name, path, None)
            return real(path, *a, **k)
        return f


# --------------------------------------------------------------------------
# clock
# --------------------------------------------------------------------------

class SimClock:
    def __init__(self, start=1.0e9, step=0.01, jumps=()):
        self.t, self.step, self.jumps, self.reads = start, step, list(jumps), 0
        self.span = 0.0

    def tick(self):
        self.reads += 1
        d = self.step
        for at, delta in self.jumps:
            if at == self.reads:
                d += delta
        self.t += d
        self.span += abs(d)
        return self.t


def fake_datetime_module(clock):
    class FakeDT(real_datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return real_datetime.datetime.fromtimestamp(max(0.0, clock.tick()), tz or real_datetime.timezone.utc).replace(tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()
    return FakeDT


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        try:
            self.records.append((record.levelname, record.getMessage()))
        except Exception as e:  # a broken log call is not this check's business
            self.records.append((record.levelname, f'<unformattable {e}>'))

    def warnings(self):
        return [m for lv, m in self.records if lv in ('WARNING', 'ERROR', 'CRITICAL')]


def _flixopt_modules():
    import sys
    return [m for n, m in sorted(sys.modules.items()) if m is not None and (n == 'flixOpt' or n.startswith('flixOpt.'))]


class Sim:
    def __init__(self, root=None, clock=None, hash_salt=None):
        self.counts = {}
        self.events = []
        self.root = root
        self.clock = clock or SimClock()
        self.hash_salt = hash_salt
        self.solver = SimSolverCore(self)
        self.fs = FsSim(self, root) if root else None
        self.capture = Capture()
        self.scheduler = None
        self.opened_urls = []
        self.real_solver = False
        self.epsilon = EPSILON

    def count(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + k

    def yield_point(self, where):
        if self.scheduler is not None:
            self.scheduler.switch(where)

    @contextlib.contextmanager
    def installed(self):
        import pyomo.environ as pyo
        from pyomo.contrib import appsi
        import flixOpt  # noqa: F401
        import flixOpt.calculation as calc_mod
        import flixOpt.structure as structure
        saved = []

        def patch(obj, name, value):
            saved.append((obj, name, obj.__dict__[name] if isinstance(obj, type) and name in obj.__dict__ else getattr(obj, name, None),
                          name in getattr(obj, '__dict__', {}) or not isinstance(obj, type)))
            setattr(obj, name, value)

        if not self.real_solver:
            real_highs, real_factory = appsi.solvers.Highs, pyo.SolverFactory
            sim_highs = lambda *a, **k: SimHighs(self, *a, **k)
            patch(appsi.solvers, 'Highs', sim_highs)
            import pyomo.contrib.appsi.solvers.highs as highs_mod
            patch(highs_mod, 'Highs', sim_highs)

            def factory(name=None, *a, **k):
                if name in ('appsi_highs', 'highs'):
                    return SimHighs(self)
                return SimLegacySolver(self, name)
            patch(pyo, 'SolverFactory', factory)
            for mod in _flixopt_modules():  # names imported into flixOpt's own modules
                for name, value in list(vars(mod).items()):
                    if value is real_factory:
                        patch(mod, name, factory)
                    elif value is real_highs:
                        patch(mod, name, sim_highs)
        if self.epsilon is not None:
            # on/off threshold well above solver tolerances, so that 'on' is a crisp notion
            patch(flixOpt.CONFIG.modeling, 'EPSILON', self.epsilon)
        patch(timeit, 'default_timer', self.clock.tick)
        for mod in _flixopt_modules():
            for name, value in list(vars(mod).items()):
                if value is REAL_TIMER:
                    patch(mod, name, self.clock.tick)
        if hasattr(calc_mod, 'datetime'):
            fd = fake_datetime_module(self.clock)
            if isinstance(calc_mod.datetime, types.ModuleType):
                shim = types.SimpleNamespace(**{k: v for k, v in vars(real_datetime).items() if not k.startswith('__')})
                shim.datetime = fd
                patch(calc_mod, 'datetime', shim)
            else:
                patch(calc_mod, 'datetime', fd)
        if self.fs is not None:
            fs = self.fs
            patch(builtins, 'open', fs.open)
            patch(io, 'open', fs.open)
            for name in ('replace', 'rename'):
                patch(os, name, fs.wrap2(name, getattr(os, name)))
            for name in ('unlink', 'remove', 'mkdir', 'rmdir'):
                patch(os, name, fs.wrap1(name, getattr(os, name)))
        if self.hash_salt is not None:
            # objects that hash by address get a salted hash in the order in which they are first hashed
            salt, known = self.hash_salt, {}

            def salted(obj):
                e = known.get(id(obj))
                if e is None:
                    h = int.from_bytes(hashlib.sha256(f'{salt}|{len(known)}'.encode()).digest()[:7], 'big')
                    e = known[id(obj)] = (obj, h)
                return e[1]
            done = set()
            for mod in _flixopt_modules():
                for cls in list(vars(mod).values()):
                    if isinstance(cls, type) and cls.__module__.startswith('flixOpt') and cls.__hash__ is object.__hash__ and cls not in done \
                            and cls.__eq__ is object.__eq__ and not any(b.__module__.startswith('flixOpt') for b in cls.__mro__[1:]):
                        done.add(cls)
                        patch(cls, '__hash__', salted)
        import webbrowser
        patch(webbrowser, 'open', lambda url, *a, **k: self.opened_urls.append(url) or True)
        lg = logging.getLogger('flixOpt')
        old_handlers, old_level, old_prop = lg.handlers[:], lg.level, lg.propagate
        lg.handlers[:] = [self.capture]
        lg.setLevel(logging.WARNING)
        lg.propagate = False
        pl = logging.getLogger('pyomo')
        old_pl = pl.level
        pl.setLevel(logging.CRITICAL)
        try:
            yield self
        finally:
            lg.handlers[:] = old_handlers
            lg.setLevel(old_level)
            lg.propagate = old_prop
            pl.setLevel(old_pl)
            for obj, name, value, had in reversed(saved):
                if isinstance(obj, type) and not had:
                    delattr(obj, name)
                else:
                    setattr(obj, name, value)
