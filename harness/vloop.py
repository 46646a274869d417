"""A deterministic event loop with virtual time: the real tornado IOLoop on top of an asyncio loop whose every
step is driven by the harness.  Used identically in symbolic and in replay runs."""
import _thread
import asyncio
from collections import deque

import tornado.ioloop
from tornado.concurrent import Future
from tornado.platform.asyncio import AsyncIOMainLoop


class VLoop(asyncio.AbstractEventLoop):
    def __init__(self, start=1000.0):
        self.now = start
        self.ready = deque()
        self.timers = []
        self.seq = 0
        self.errors = []
        self.closed = False
        self.owner = None       # the thread that runs the loop; None: not checked

    def _mine(self):
        if self.owner is not None and self.owner != _thread.get_ident():
            self.errors.append('event loop used from another thread')

    def get_debug(self):
        return False

    def is_running(self):
        return True

    def is_closed(self):
        return self.closed

    def close(self):
        self.closed = True

    def time(self):
        return self.now

    def call_soon(self, cb, *args, context=None):
        self._mine()
        return self.call_soon_threadsafe(cb, *args, context=context)

    def call_soon_threadsafe(self, cb, *args, context=None):
        h = asyncio.Handle(cb, args, self, context)
        self.ready.append(h)
        return h

    def call_later(self, delay, cb, *args, context=None):
        return self.call_at(self.now + delay, cb, *args, context=context)

    def call_at(self, when, cb, *args, context=None):
        self._mine()
        h = asyncio.TimerHandle(when, cb, args, self, context)
        self.seq += 1
        self.timers.append((when, self.seq, h))
        return h

    def _timer_handle_cancelled(self, h):
        pass

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return asyncio.Task(coro, loop=self)

    def call_exception_handler(self, context):
        if 'never retrieved' in context.get('message', ''):
            return
        e = context.get('exception')
        self.errors.append('%s: %s' % (type(e).__name__, e) if e is not None else context.get('message'))

    def add_reader(self, *a):
        pass
    remove_reader = add_writer = remove_writer = add_reader


class Log(object):
    """stands in for tornado's application log: an exception that escapes a callback is recorded"""
    def __init__(self, loop):
        self.loop = loop

    def error(self, msg, *a, **k):
        import sys
        e = sys.exc_info()[1]
        self.loop.errors.append('%s: %s' % (type(e).__name__, e) if e is not None else str(msg))

    def warning(self, *a, **k):
        pass
    info = debug = warning


_start, _stop = tornado.ioloop.PeriodicCallback.start, tornado.ioloop.PeriodicCallback.stop


class Loop(object):
    """The driver: .io is the tornado loop handed to the code under test."""

    def __init__(self, E, start=1000.0):
        for old in list(tornado.ioloop.IOLoop._ioloop_for_asyncio):
            try:
                old.close()
            except Exception:
                pass
        self.v = VLoop(start)
        asyncio.set_event_loop(self.v)
        tornado.ioloop.app_log = Log(self.v)
        self.io = AsyncIOMainLoop()
        self.io.time = self.v.time
        E.set_clock(self.v.time)

        # a periodic callback is shared state: another thread may run before it is started or stopped
        def start(pc, *a, **k):
            E.pause('periodic start')
            return _start(pc, *a, **k)

        def stop(pc):
            E.pause('periodic stop')
            return _stop(pc)
        tornado.ioloop.PeriodicCallback.start, tornado.ioloop.PeriodicCallback.stop = start, stop

    @property
    def errors(self):
        return self.v.errors

    @property
    def now(self):
        return self.v.now

    def threads(self, E, loop, fns, bound):
        """E.threads with a loop thread, the only one that may use the event loop directly"""
        self.v.owner = -1

        def run():
            self.v.owner = _thread.get_ident()
            return loop()
        try:
            return E.threads([run] + list(fns), bound)
        finally:
            self.v.owner = None

    def step(self):
        """run one ready callback"""
        v = self.v
        while v.ready:
            h = v.ready.popleft()
            if h._cancelled:
                continue
            asyncio._set_running_loop(v)
            try:
                h._run()
            finally:
                asyncio._set_running_loop(None)
            return True
        return False

    def run(self, limit=2000):
        """run until nothing is ready"""
        n = 0
        while self.step():
            n += 1
            if n > limit:
                raise AssertionError('event loop does not settle')
        return n

    def next_timer(self):
        ts = [t for t in self.v.timers if not t[2]._cancelled]
        self.v.timers = ts
        return min(ts, key=lambda t: (t[0], t[1])) if ts else None

    def fire(self, settle=True):
        """advance to the next timer and run it; False when there is none"""
        t = self.next_timer()
        if t is None:
            return False
        self.v.timers.remove(t)
        self.v.now = max(self.v.now, t[0])
        self.v.ready.append(t[2])
        if settle:
            self.run()
        return True

    def advance(self, dt):
        """let dt seconds pass, running everything that becomes due"""
        end = self.v.now + dt
        self.run()
        while True:
            t = self.next_timer()
            if t is None or t[0] > end:
                break
            self.fire()
        self.v.now = end
        self.run()


class Channel(object):
    """What the client needs from its agent channel: requests are recorded with futures the harness completes."""

    def __init__(self, io_loop):
        self.io_loop = io_loop
        self.sampling = []
        self.credits = []

    def readFrame(self):
        return Future()

    def request_sampling_strategy(self, service_name, timeout=15):
        f = Future()
        self.sampling.append((service_name, f))
        return f

    def request_throttling_credits(self, service_name, client_id, operations, timeout=15):
        f = Future()
        self.credits.append((service_name, client_id, operations, f))
        return f


class Response(object):
    def __init__(self, body):
        self.body = body


class Counters(object):
    """A metrics factory counting per (name, tags)."""

    def __init__(self):
        self.n = {}
        self.gauges = {}

    def create_counter(self, name, tags=None):
        key = self.key(name, tags)

        def inc(value):
            self.n[key] = self.n.get(key, 0) + value
        return inc

    def create_gauge(self, name, tags=None):
        def upd(value):
            self.gauges[name] = value
        return upd

    def create_timer(self, name, tags=None):
        return lambda value: None

    def key(self, name, tags):
        return name + ''.join(',%s=%s' % (k, tags[k]) for k in sorted(tags)) if tags else name

    def get(self, name, **tags):
        return self.n.get(self.key(name, tags), 0)
