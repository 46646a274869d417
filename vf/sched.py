"""Cooperative thread scheduler.  Threads of the scenario are OS threads of which exactly one runs; which one goes on at
a scheduling point is decided by a chooser: the solver (symbolic runs) or a recorded schedule (replays of the unmodified
code, whose bytecode is traced so that the switch happens at the very same operation)."""
import _thread
import dis
import gc
import sys
import types
import weakref

CUR = None          # the scheduler of the running scenario
MUT = set()         # attribute names the code under test stores outside of constructors


class Deadlock(KeyboardInterrupt):
    pass


class Abort(KeyboardInterrupt):
    pass


class T(object):
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.gone = _thread.allocate_lock()
        self.gone.acquire()
        self.state = 'ready'
        self.waiting = None
        self.exc = None
        self.result = None
        self.ident = None
        self.counts = {}

    def __repr__(self):
        return 'thread %d' % self.tid


class Sched(object):
    def __init__(self, chooser, deadlock=Deadlock, abort=Abort):
        self.chooser = chooser
        self.deadlock = deadlock
        self.abort = abort
        self.threads = []
        self.current = None
        self.active = False
        self.aborting = False
        self.error = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.shared = {}
        self.npoints = 0

    # ------------------------------------------------------------------ running
    def run(self, fns):
        global CUR
        CUR = self
        self.threads = [T(i, f) for i, f in enumerate(fns)]
        for t in self.threads:
            _thread.start_new_thread(self._body, (t,))
            self.main.acquire()
        self.active = True
        first = self.chooser.pick(self, 'start', None, list(self.threads))
        self.current = first
        first.sem.release()
        try:
            self.main.acquire()
        finally:
            self.active = False
        self.current = None
        CUR = None
        self.shutdown()
        if self.error is not None:
            raise self.error
        return self.threads

    def _body(self, t):
        t.ident = _thread.get_ident()
        self.main.release()
        try:
            t.sem.acquire()
            if not self.aborting:
                self._run(t)
                t.sem.acquire()
        except BaseException:
            pass
        finally:
            t.gone.release()

    def _run(self, t):
        try:
            t.result = t.fn()
        except Exception as e:
            t.exc = e
        except BaseException as e:
            if not self.aborting and self.error is None:
                self.error = e
        t.state = 'done'
        if self.aborting:
            t.sem.release()
            return
        ready = [x for x in self.threads if x.state == 'ready']
        if self.error is None and ready:
            try:
                nxt = self.chooser.pick(self, 'end', t, ready)
            except BaseException as e:
                self.error = e
            else:
                self.current = nxt
                nxt.sem.release()
                return
        if self.error is None and any(x.state == 'blocked' for x in self.threads):
            self.error = self.deadlock('threads wait for each other')
        self.main.release()

    def shutdown(self):
        global CUR
        if self.aborting:
            return
        self.aborting = True
        self.active = False
        if CUR is self:
            CUR = None
        for t in self.threads:
            try:
                t.sem.release()
            except RuntimeError:
                pass
        for t in self.threads:
            t.gone.acquire(True, 5)

    # ------------------------------------------------------------------ points
    def _switch(self, t, to):
        self.current = to
        to.sem.release()
        t.sem.acquire()
        if self.aborting:
            raise self.abort()

    def mine(self):
        return self.active and self.current is not None and self.current.ident == _thread.get_ident()

    def point(self, kind, obj=None, key=None, count=True, off=False):
        """A place where the running thread may be preempted."""
        if not self.active:
            return
        t = self.current
        if t is None or t.ident != _thread.get_ident():
            return
        k = (kind, key)
        n = t.counts.get(k, 0)
        t.counts[k] = n + 1
        if off:
            return
        self.npoints += 1
        others = [x for x in self.threads if x is not t and x.state == 'ready']
        if not others:
            return
        to = self.chooser.pre(self, t, kind, key, n, others)
        if to is not None:
            self._switch(t, to)

    def block(self, lock):
        t = self.current
        t.state = 'blocked'
        t.waiting = lock
        ready = [x for x in self.threads if x.state == 'ready']
        if not ready:
            self.error = self.deadlock('no thread can run')
            self.main.release()
            t.sem.acquire()
            raise self.abort()
        self._switch(t, self.chooser.pick(self, 'block', t, ready))

    def wake(self, lock):
        for t in self.threads:
            if t.state == 'blocked' and t.waiting is lock:
                t.state = 'ready'
                t.waiting = None

    def dump(self, model=None):
        return self.chooser.events


class CoopLock(object):
    """threading.Lock / RLock under the scheduler (or with a single thread)."""
    ALL = weakref.WeakSet()
    deadlock = Deadlock

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant
        CoopLock.ALL.add(self)

    def acquire(self, blocking=True, timeout=-1):
        s = CUR
        if s is not None and s.mine():
            s.point('acquire')
        else:
            s = None
        me = s.current if s is not None else 'main'
        while self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if s is None:
                raise self.deadlock('lock acquired twice by the same thread')
            s.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if CUR is not None:
                CUR.wake(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False

    def reset(self):
        self.owner = None
        self.count = 0


def reset():
    """no lock is held when a run begins"""
    for l in list(CoopLock.ALL):
        l.reset()


# ---------------------------------------------------------------------------------------- replay
class Recorded(object):
    """Follows a recorded schedule: a list of ['pick', reason, to] and ['pre', tid, kind, key, n, to]."""

    def __init__(self, events):
        self.events = [tuple(e) for e in events or []]
        self.i = 0
        self.diverged = 0

    def pick(self, s, reason, t, ready):
        if self.i < len(self.events) and self.events[self.i][0] == 'pick':
            e = self.events[self.i]
            self.i += 1
            for x in ready:
                if x.tid == e[2]:
                    return x
        self.diverged += 1
        return ready[0]

    def pre(self, s, t, kind, key, n, others):
        if self.i >= len(self.events):
            return None
        e = self.events[self.i]
        if e[0] != 'pre' or e[1] != t.tid or e[2] != kind or e[3] != key or e[4] != n:
            return None
        self.i += 1
        for x in others:
            if x.tid == e[5]:
                return x
        self.diverged += 1
        return None


OPS = {'ga': ('LOAD_ATTR',), 'store': ('STORE_ATTR',), 'setitem': ('STORE_SUBSCR',), 'git': ('BINARY_SUBSCR', 'BINARY_SLICE'),
       'mt': ('CALL', 'CALL_FUNCTION_EX', 'CALL_KW'), 'in': ('CONTAINS_OP',), 'it': ('FOR_ITER',), 'c': ('CALL', 'CALL_FUNCTION_EX', 'CALL_KW')}


class Monitor(object):
    """Calls the scheduler before the operations of the recorded schedule: instruction events of sys.monitoring on the
    (unmodified) functions these operations belong to."""
    TOOL = 3

    def __init__(self, sched, chooser):
        self.sched = sched
        want = {}
        for e in chooser.events:
            if e[0] == 'pre' and e[2] in OPS:
                mod, l, c, el, ec = e[3].rsplit(':', 4)
                want.setdefault(mod, set()).add((e[2], e[3], int(l), int(c), int(el), int(ec)))
        self.at = {}
        if not want:
            return
        files = {}
        for mod in want:
            m = sys.modules.get(mod)
            if m is not None:
                files[m.__file__] = want[mod]
        todo = [o.__code__ for o in gc.get_objects() if type(o) is types.FunctionType and o.__code__.co_filename in files]
        seen = set()
        while todo:
            code = todo.pop()
            if id(code) in seen:
                continue
            seen.add(id(code))
            todo.extend(x for x in code.co_consts if isinstance(x, types.CodeType))
            raw = code.co_code
            for i, p in enumerate(code.co_positions()):
                if p[0] is None:
                    continue
                op = dis.opname[raw[2 * i]]
                for kind, key, l, c, el, ec in files[code.co_filename]:
                    if op in OPS[kind] and p[1] == el and p[3] == ec and (kind in ('mt', 'c') or (p[0] == l and p[2] == c)):
                        self.at.setdefault((code, 2 * i), []).append((kind, key))

    def __enter__(self):
        if self.at:
            m = sys.monitoring
            m.use_tool_id(self.TOOL, 'vf')
            m.register_callback(self.TOOL, m.events.INSTRUCTION, self.event)
            for code in set(c for c, i in self.at):
                m.set_local_events(self.TOOL, code, m.events.INSTRUCTION)

    def __exit__(self, *a):
        if self.at:
            m = sys.monitoring
            for code in set(c for c, i in self.at):
                m.set_local_events(self.TOOL, code, 0)
            m.register_callback(self.TOOL, m.events.INSTRUCTION, None)
            m.free_tool_id(self.TOOL)

    def event(self, code, offset):
        for kind, key in self.at.get((code, offset), ()):
            self.sched.point(kind, None, key)


# ---------------------------------------------------------------------------------------- symbolic
class Symbolic(object):
    """Every choice is a solver variable; at most `bound` preemptions of a thread that could go on."""

    def __init__(self, ctx, bound):
        self.ctx = ctx
        self.left = bound
        self.events = []

    def _bool(self, name):
        import z3
        return self.ctx.decide(z3.Bool(self.ctx.fresh(name)), prefer=False)

    def pick(self, s, reason, t, ready):
        to = ready[-1]
        for x in ready[:-1]:
            if not self._bool('not_' + reason):
                to = x
                break
        self.events.append(('pick', reason, to.tid))
        return to

    def pre(self, s, t, kind, key, n, others):
        if self.left <= 0:
            return None
        for x in others:
            if self._bool('preempt'):
                self.left -= 1
                self.events.append(('pre', t.tid, kind, key, n, x.tid))
                return x
        return None


def runtime_names():
    from . import models, values
    from collections import deque, OrderedDict, defaultdict
    simple = {list, dict, set, deque, OrderedDict, defaultdict, values.XDict}

    def shared(s, o):
        return id(o) in s.shared

    def touch(s, o):
        if type(o) in simple:
            s.shared[id(o)] = o

    def ga(site, obj, attr):
        s = CUR
        if s is not None and s.mine():
            s.point('ga', obj, site, off=attr not in MUT)
            v = getattr(obj, attr)
            touch(s, v)
            return v
        return getattr(obj, attr)

    def mt(site, obj, name, /, *a, **k):
        s = CUR
        if s is not None and s.mine():
            s.point('mt', obj, site, off=not shared(s, obj))
            r = models.mcall(obj, name, *a, **k)
            if type(obj) in simple:
                touch(s, r)
            return r
        return models.mcall(obj, name, *a, **k)

    def c(site, f, /, *a, **k):
        s = CUR
        if s is not None and s.mine():
            s.point('c', f, site, off=not any(shared(s, x) for x in a))
        return models.call(f, *a, **k)

    def git(site, obj, key):
        s = CUR
        if s is not None and s.mine():
            s.point('git', obj, site, off=not shared(s, obj))
            r = models.getitem(obj, key)
            touch(s, r)
            return r
        return models.getitem(obj, key)

    def pt(site, kind, obj, key):
        s = CUR
        if s is not None and s.mine():
            if kind == 'setitem':
                s.point(kind, obj, site, off=not shared(s, obj))
            else:
                s.point(kind, obj, site, off=key not in MUT)

    def contains(site, x, o):
        s = CUR
        if s is not None and s.mine():
            s.point('in', o, site, off=not shared(s, o))
        return models.contains(x, o)

    def notin(site, x, o):
        return values.sym_not(contains(site, x, o))

    def it(site, o):
        s = CUR
        if s is None or not s.mine():
            return o
        # the mapping behind a view is not looked up: any view counts as shared
        return steps(s, site, o, not (shared(s, o) or type(o).__name__ in ('dict_keys', 'dict_values', 'dict_items')))

    def steps(s, site, o, off):
        i = iter(o)
        while True:
            s.point('it', o, site, off=off)
            try:
                v = next(i)
            except StopIteration:
                return
            yield v

    return {'_vf_ga': ga, '_vf_mt': mt, '_vf_ct': c, '_vf_git': git, '_vf_pt': pt, '_vf_int': contains, '_vf_notint': notin, '_vf_it': it}
