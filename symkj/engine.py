"""Path exploration: symbolic execution of real Python code by re-execution.

One *path* is one execution of the scenario.  Whenever a symbolic condition
reaches a branch, ``branch`` decides which side this path takes, asks the
solver whether the other side is feasible under the path condition, and queues
the other side (with the solver's model) when it is.  The paths together cover
every value of the symbolic inputs within the stated bounds.
"""
import time

from . import terms as tm
from .terms import T
from .solver import Solver, SolverError


class Control(BaseException):
    """Engine control flow.  Not an Exception: code under test must not catch it."""


class PathAbort(Control):
    """The path condition plus an assumption is unsatisfiable, or the path was cut."""


class Stop(Control):
    """Give up on the whole scenario (budget)."""


class Violation(Control):
    def __init__(self, msg, model, detail=None):
        Control.__init__(self, msg)
        self.msg = msg
        self.model = model
        self.detail = detail


class Engine(object):
    MAX_DECISIONS = 6000

    def __init__(self, solver=None, deadline=None, max_paths=None):
        self.solver = solver or Solver()
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = dict(paths=0, aborted=0, branches=0, forks=0, asserts=0,
                          concretised=0, limited=0, unknown=0, nondeterminism=0)
        self.concretised_sites = {}
        self.active = False
        self.incomplete = None

    # -- one path -----------------------------------------------------------
    def start_path(self, depth, model, trail):
        self.pc = []
        self.by_var = {}
        self.known = {}
        self.model = dict(model)
        self.depth = depth
        self.expect = trail
        self.trail = []
        self.inputs = []          # [(name, kind, value-object)] in creation order
        self.fresh = {}
        self.pending = None       # control exception that must not be lost
        self.caps = {}
        self.active = True

    def new_var(self, name, sort, default=0):
        n = self.fresh.get(name, 0)
        self.fresh[name] = n + 1
        if n:
            name = '%s#%d' % (name, n)
        v = tm.var(name, sort)
        if v not in self.model:
            self.model[v] = default
        return v

    def _add(self, c):
        if isinstance(c, bool):
            assert c
            return
        if self.known.get(c) is True:
            return
        self.pc.append(c)
        self.known[c] = True
        self.known[tm.not_(c)] = False
        if c.op == 'and':
            for x in c.args:
                self.known[x] = True
                self.known[tm.not_(x)] = False
        for v in c.vars:
            self.by_var.setdefault(v, []).append(c)

    def _slice(self, cond):
        """The part of the path condition connected to cond by shared variables."""
        seen_c = set()
        out = []
        todo = list(cond.vars)
        seen_v = set(todo)
        while todo:
            v = todo.pop()
            for c in self.by_var.get(v, ()):
                if c.tid in seen_c:
                    continue
                seen_c.add(c.tid)
                out.append(c)
                for w in c.vars:
                    if w not in seen_v:
                        seen_v.add(w)
                        todo.append(w)
        return out

    def query(self, cond):
        """Is PC and cond satisfiable?  ('sat', model) with a full model, or (ans, None)."""
        if isinstance(cond, bool):
            return ('sat', self.model) if cond else ('unsat', None)
        ans, m = self.solver.check(self._slice(cond) + [cond])
        if ans == 'sat':
            full = dict(self.model)
            full.update(m)
            return ans, full
        if ans == 'unknown':
            self.stats['unknown'] += 1
        return ans, None

    def _tick(self):
        if self.pending is not None:
            raise self.pending

    def _control(self, exc):
        self.pending = exc
        raise exc

    def branch(self, cond, limit=None, pick=None):
        """Decide a symbolic condition on this path; queue the other side."""
        if isinstance(cond, bool):
            return cond
        if self.pending is not None:
            raise self.pending
        k = self.known.get(cond)
        if k is not None:
            return k
        self.stats['branches'] += 1
        val = tm.ev(cond, self.model)
        idx = len(self.trail)
        if idx >= self.MAX_DECISIONS:
            self.incomplete = 'decision bound per path'
            self._control(PathAbort('too many decisions'))
        lit = cond if val else tm.not_(cond)
        if idx < self.depth:
            if self.expect[idx][:2] != (cond.tid, val):
                self.stats['nondeterminism'] += 1
        else:
            other = tm.not_(lit)
            if limit is not None and limit <= 0:
                # a capped concretisation: the remaining values are not explored
                if self.query(other)[0] != 'unsat':
                    self.stats['limited'] += 1
            else:
                ans, m = self.query(other)
                if ans == 'sat':
                    self.stats['forks'] += 1
                    self.worklist.append((idx + 1, m, self.trail + [(cond.tid, not val, pick)]))
                elif ans == 'unknown':
                    self.incomplete = 'solver unknown'
        self.trail.append((cond.tid, val, pick))
        self._add(lit)
        if self.deadline is not None and time.time() > self.deadline:
            self.incomplete = 'time budget'
            self._control(Stop('time budget'))
        return val

    def must(self, cond):
        """True / False when the path condition decides cond, else None."""
        if isinstance(cond, bool):
            return cond
        k = self.known.get(cond)
        if k is not None:
            return k
        val = tm.ev(cond, self.model)
        other = tm.not_(cond) if val else cond
        ans, _ = self.query(other)
        if ans == 'unsat':
            self.known[cond] = val
            self.known[tm.not_(cond)] = not val
            return val
        return None

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                self._control(PathAbort('assumption false'))
            return
        if self.pending is not None:
            raise self.pending
        if not tm.ev(cond, self.model):
            ans, m = self.query(cond)
            if ans != 'sat':
                if ans == 'unknown':
                    self.incomplete = 'solver unknown'
                self._control(PathAbort('assumption infeasible'))
            self.model = m
        self._add(cond)

    def value(self, t):
        return tm.ev(t, self.model)

    def concretise_int(self, t, cap=200, site=None):
        """Pin an integer term to each of its feasible values, one per path."""
        if not isinstance(t, T):
            return t
        while True:
            v = self.picked(lambda v: tm.eq(t, v), tm.ev(t, self.model))
            n = self.caps.get(t, 0)
            self.caps[t] = n + 1
            if self.branch(tm.eq(t, v), limit=cap - n, pick=v):
                return v

    def picked(self, cond_of, v):
        """The value to try next: the model's, or on a re-executed prefix the one
        tried there before (the model has changed since)."""
        c = cond_of(v)
        if isinstance(c, bool) or self.known.get(c) is True:
            return v
        idx = len(self.trail)
        if idx < self.depth and self.expect[idx][2] is not None:
            return self.expect[idx][2]
        return v

    def note_concretised(self, site):
        self.stats['concretised'] += 1
        self.concretised_sites[site] = self.concretised_sites.get(site, 0) + 1

    def check(self, cond, msg, detail=None):
        """The property assertion: PC and not cond must be unsatisfiable."""
        self.stats['asserts'] += 1
        if self.pending is not None:
            raise self.pending
        if isinstance(cond, bool):
            if cond:
                return
            self._control(Violation(msg, dict(self.model), detail))
        ans, m = self.query(tm.not_(cond))
        if ans == 'unsat':
            return
        if ans == 'unknown':
            self.incomplete = 'solver unknown'
            return
        self._control(Violation(msg, m, detail))

    # -- all paths ----------------------------------------------------------
    def explore(self, run, on_violation):
        """run() executes one path.  Stops at the first violation on_violation
        confirms; a rejected one is recorded by the callback."""
        self.worklist = [(0, {}, [])]
        while self.worklist:
            if self.max_paths is not None and self.stats['paths'] >= self.max_paths:
                self.incomplete = 'path budget'
                break
            if self.deadline is not None and time.time() > self.deadline:
                self.incomplete = 'time budget'
                break
            depth, model, trail = self.worklist.pop()
            self.start_path(depth, model, trail)
            try:
                try:
                    run()
                    if self.pending is not None:
                        raise self.pending
                except Control as e:
                    if self.pending is not None and self.pending is not e:
                        raise self.pending
                    raise
                except Exception:
                    if self.pending is not None:
                        raise self.pending
                    raise
                self.stats['paths'] += 1
            except PathAbort:
                self.stats['aborted'] += 1
            except Stop:
                break
            except Violation as v:
                self.stats['paths'] += 1
                self.active = False
                if on_violation(v):
                    return
            finally:
                self.active = False


CUR = None       # the engine of this process


def cur():
    return CUR


def set_cur(e):
    global CUR
    CUR = e
