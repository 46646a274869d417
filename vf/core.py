"""Path-exploring core: one path = one execution of a scenario under a prefix of decisions.

Every branch on a symbolic condition is decided by the SMT solver (z3).  Alternatives that are
feasible are pushed on the work list; re-execution with the recorded prefix reaches them.
"""
import sys
import time as _time
import z3

_real_time = _time.perf_counter


class Control(KeyboardInterrupt):
    """Base of the engine's own control-flow exceptions (never swallowed by the code under test)."""


class PathEnd(Control):
    """Path finished early (assumption failed / infeasible)."""


class Nondeterminism(Exception):
    pass


class Unsupported(Control):
    """A symbolic operation with no encoding."""


class Violation(Control):
    """A check failed on every value of the path."""


class Abort(Control):
    """Unwinds the threads of a path that is over."""


class Budget(Control):
    """Deadline of the whole run reached."""


z3.set_param('model.compact', True)
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.check_queries = 0

    def as_dict(self):
        return dict(self.__dict__)


STATS = Stats()
FUNCS = {}          # functions of the code under test executed: name -> count


def _site():
    """Fingerprint of the place a decision is taken at (z3 terms themselves are not stable: simplification
    orders arguments by node identity)."""
    f = sys._getframe(2)
    h = 0
    for _ in range(12):
        if f is None:
            break
        h = (h * 31 + f.f_lineno) & 0xffffff
        f = f.f_back
    return h


class Ctx:
    """State of one path execution."""

    def __init__(self, prefix=(), deadline=None, timeout_ms=10000, rng=None):
        self.prefix = prefix
        self.trail = []            # list of (taken, hash)
        self.pending = []          # alternative prefixes found on this path
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.asserts = []
        self.model = None
        self.nvar = 0
        self.inputs = []           # (name, kind, payload)
        self.small = []            # constraints that make the inputs small
        self.deadline = deadline
        self.incomplete = []       # reasons why this path is not a complete symbolic account
        self.concretised = 0
        self.violations = []
        self.inconclusive = []
        self.labels = {}
        self.observed = []
        self.in_model = False
        self.sched = None
        self.steps = 0

    # -- variables -------------------------------------------------------------------------
    def fresh(self, name):
        self.nvar += 1
        return '%s!%d' % (name, self.nvar)

    # -- solver ----------------------------------------------------------------------------
    def add(self, e):
        self.asserts.append(e)
        self.solver.add(e)
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def _check(self, *extra):
        if self.deadline is not None and _real_time() > self.deadline:
            raise Budget()
        t0 = _real_time()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            # a fresh, non-incremental solver often decides what the incremental core gives up on
            s = z3.Solver()
            s.set('timeout', self.timeout_ms * 2)
            s.add(*self.asserts)
            s.add(*extra)
            r = s.check()
            if r == z3.sat:
                self._last_model = s.model()
            elif r == z3.unknown and self.small:
                # an answer for small inputs is still an answer when it is "satisfiable"
                s = z3.Solver()
                s.set('timeout', self.timeout_ms)
                s.add(*self.asserts)
                s.add(*extra)
                s.add(*self.small)
                if s.check() == z3.sat:
                    r = z3.sat
                    self._last_model = s.model()
        elif r == z3.sat:
            self._last_model = self.solver.model()
        STATS.solver_s += _real_time() - t0
        STATS.queries += 1
        if r == z3.sat:
            STATS.sat += 1
        elif r == z3.unsat:
            STATS.unsat += 1
        else:
            STATS.unknown += 1
        return r

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self._last_model
            elif r == z3.unsat:
                raise PathEnd('infeasible')
            else:
                self.inconclusive.append('unknown: path feasibility')
                raise PathEnd('unknown')
        return self.model

    # -- branching -------------------------------------------------------------------------
    def decide(self, e, prefer=None):
        """Return the truth value of e on this path; fork when both are feasible."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        h = _site()
        i = len(self.trail)
        STATS.decisions += 1
        if i < len(self.prefix):
            taken, ph = self.prefix[i]
            if ph != h:
                raise Nondeterminism('decision %d differs on re-execution: %s' % (i, str(e)[:200]))
            self.trail.append((taken, h))
            self.add(e if taken else z3.Not(e))
            return taken
        es = z3.simplify(e)
        if z3.is_true(es) or z3.is_false(es):
            taken = z3.is_true(es)
            self.trail.append((taken, h))
            return taken
        m = self.get_model()
        cur = z3.is_true(m.eval(e, model_completion=True))
        other = z3.Not(e) if cur else e
        r = self._check(other)
        if r == z3.unsat:
            self.trail.append((cur, h))
            # implied: no need to assert
            return cur
        if r == z3.unknown:
            self.inconclusive.append('unknown: branch feasibility')
        om = self._last_model if r == z3.sat else None
        taken = cur
        if prefer is not None and r == z3.sat:
            taken = prefer
        alt = list(self.trail)
        alt.append((not taken, h))
        if r == z3.sat:
            self.pending.append(alt)
        self.trail.append((taken, h))
        self.asserts.append(e if taken else z3.Not(e))
        self.solver.add(self.asserts[-1])
        if taken != cur:
            self.model = om
        return taken

    def assume(self, e):
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd('assume')
        self.add(e)
        self.get_model()      # PathEnd when infeasible

    def possible(self, e):
        """True/False/None: is e satisfiable on this path?"""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.model is not None and z3.is_true(self.model.eval(e, model_completion=True)):
            self._last_model = self.model
            return True
        r = self._check(e)
        return True if r == z3.sat else (False if r == z3.unsat else None)

    def choose_value(self, e):
        """Pick one model value for e, assert it, and mark the path incomplete."""
        m = self.get_model()
        v = m.eval(e, model_completion=True)
        self.add(e == v)
        self.concretised += 1
        return v


_ctx = None


def ctx():
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c
